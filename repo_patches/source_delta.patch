From 862daffe20b191eaee2b2e142ace3db18de3721b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:21 +0000
Subject: [PATCH 01/28] fix: do not share a conversion buffer between
 concurrent matchers

Comparing a string with a number converted the number into a package level
buffer, so two matchers running on different goroutines could overwrite each
other's operand.
---
 fastval.go | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/fastval.go b/fastval.go
index 9734acb..416f0b9 100644
--- a/fastval.go
+++ b/fastval.go
@@ -87,8 +87,6 @@ var FalseValueBytes = []byte(FalseString)
 var TrueStringRegex *regexp.Regexp = regexp.MustCompile("^[T|t][R|r][U|u][E|e]$")
 var FalseStringRegex *regexp.Regexp = regexp.MustCompile("^[F|f][A|a][L|l][S|s][E|e]$")
 
-var toJsonStringBuffer []byte
-
 type FastVal struct {
 	dataType    ValueType
 	data        interface{}
@@ -423,26 +421,19 @@ func (val FastVal) ToBinString() (FastVal, error) {
 	return val, errors.New("invalid type coercion")
 }
 
-// The following reuse an internal buffer so this should be hidden from outside callers
-// Internally, this must be called only once per comparison, and should be used for implicit comversion
-// (i.e. no double implicit conversion to string from the following 3 types)
+// Used for implicit conversion of the following 3 types to a string. The conversion must not go through
+// a buffer shared between callers, as matchers are allowed to run concurrently with each other.
 func (val FastVal) toJsonStringInternal() (FastVal, error) {
 	val, err := val.ToJsonString()
 
 	if err != nil {
 		switch val.dataType {
 		case UintValue:
-			toJsonStringBuffer = toJsonStringBuffer[:0]
-			toJsonStringBuffer = strconv.AppendUint(toJsonStringBuffer, val.GetUint(), 10)
-			return NewJsonStringFastVal(toJsonStringBuffer), nil
+			return NewJsonStringFastVal(strconv.AppendUint(nil, val.GetUint(), 10)), nil
 		case IntValue:
-			toJsonStringBuffer = toJsonStringBuffer[:0]
-			toJsonStringBuffer = strconv.AppendInt(toJsonStringBuffer, val.GetInt(), 10)
-			return NewJsonStringFastVal(toJsonStringBuffer), nil
+			return NewJsonStringFastVal(strconv.AppendInt(nil, val.GetInt(), 10)), nil
 		case FloatValue:
-			toJsonStringBuffer = toJsonStringBuffer[:0]
-			toJsonStringBuffer = strconv.AppendFloat(toJsonStringBuffer, val.GetFloat(), 'E', -1, 64)
-			return NewJsonStringFastVal(toJsonStringBuffer), nil
+			return NewJsonStringFastVal(strconv.AppendFloat(nil, val.GetFloat(), 'E', -1, 64)), nil
 		}
 	}
 
-- 
2.43.0


From 8db334d4946e0235a47461312e8d52d1876c1a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 02/28] fix: clear the collate status when a matcher is reset

MatchWithStatus kept reporting MatcherCollateUsed for every document that
followed one which used collation, even after Reset.
---
 fastMatcher.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fastMatcher.go b/fastMatcher.go
index 6ab677f..4b9fcd8 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -34,6 +34,7 @@ func (m *FastMatcher) Reset() {
 		m.slots[i] = emptySlotData
 	}
 	m.buckets.Reset()
+	m.collateUsed = false
 }
 
 func (m *FastMatcher) leaveValue() error {
-- 
2.43.0


From 25fae4f55325994ef4de292c58e84fdd6999cbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:41 +0000
Subject: [PATCH 03/28] fix: return errors for malformed and truncated
 documents

A document which is not valid JSON made Match panic in many places, and the
errors of nested values were dropped. A document which was cut short could
even produce a verdict: the number in {"a":12 was taken as complete, and the
members which were missing were treated as absent. Match now reports an error
for these, unless the verdict was already decided by what was read.
---
 fastMatcher.go | 81 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 57 insertions(+), 24 deletions(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index 4b9fcd8..2798384 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -63,7 +63,7 @@ func (m *FastMatcher) leaveValue() error {
 			}
 			depth--
 		case tknEnd:
-			panic("unexpected EOF")
+			return ErrUnexpectedEOF
 		}
 	}
 }
@@ -89,7 +89,15 @@ func (m *FastMatcher) skipValue(token tokenType) error {
 	case tknArrayStart:
 		return m.leaveValue()
 	}
-	panic(fmt.Sprintf("unexpected value: %v", token))
+	return unexpectedTokenError("value", token)
+}
+
+// unexpectedTokenError describes a document which is not valid JSON.
+func unexpectedTokenError(expected string, token tokenType) error {
+	if token == tknEnd {
+		return ErrUnexpectedEOF
+	}
+	return fmt.Errorf("invalid JSON document: expected %s, got %s", expected, tokenToText(token))
 }
 
 func (m *FastMatcher) literalFromSlot(slot SlotID) FastVal {
@@ -401,8 +409,7 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 	if m.buckets.IsResolved(loopBucketIdx) {
 		// If the bucket for this op is already resolved  in the binary tree,
 		// we don't need to perform the op and can just skip it.
-		m.skipValue(token)
-		return nil
+		return m.skipValue(token)
 	}
 
 	// We need to keep track of the overall loop result value while the bin tree
@@ -437,7 +444,7 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 				break
 			}
 			if token != tknListDelim {
-				panic(fmt.Sprintf("expected array element delimiter got %s", tokenToText(token)))
+				return unexpectedTokenError("array element delimiter", token)
 			}
 		}
 
@@ -467,7 +474,10 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 				loopState = true
 
 				// Skip the remainder of the array and leave the loop
-				m.leaveValue()
+				err = m.leaveValue()
+				if err != nil {
+					return err
+				}
 				break
 			}
 		} else if loop.Mode == LoopTypeEvery {
@@ -477,7 +487,10 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 				loopState = false
 
 				// Skip the remainder of the array and leave the loop
-				m.leaveValue()
+				err = m.leaveValue()
+				if err != nil {
+					return err
+				}
 				break
 			}
 		} else if loop.Mode == LoopTypeAnyEvery {
@@ -487,7 +500,10 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 				loopState = false
 
 				// Skip the remainder of the array and leave the loop
-				m.leaveValue()
+				err = m.leaveValue()
+				if err != nil {
+					return err
+				}
 				break
 			} else {
 				// If we encounter a truthy value, we have satisfied the 'any'
@@ -530,6 +546,9 @@ func (m *FastMatcher) matchAfter(node *AfterNode) error {
 
 			m.tokens.Seek(slotInfo.start)
 			token, tokenData, _, err := m.tokens.Step()
+			if err != nil {
+				return err
+			}
 
 			// run the loop matcher
 			err = m.matchLoop(token, tokenData, &loop)
@@ -574,6 +593,14 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 	if isLiteralToken(token) {
 		var litParse fastLitParser
 
+		// A number has no terminator of its own, so when the document ends right
+		// behind a number which is not the whole document, it has been cut short
+		// and we can't know what the value of the number was meant to be.
+		if (token == tknInteger || token == tknNumber) && node != m.def.ParseNode &&
+			m.tokens.Position() >= m.tokens.dataLen {
+			return ErrUnexpectedEOF
+		}
+
 		// TODO(brett19): Move the litVal generation to be lazy-evaluated by the
 		// op execution below so we avoid performing any translations when the op
 		// is already resolved by something else.
@@ -596,14 +623,17 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 		objStartPos := m.tokens.Position() - 1 /* to include the objStart itself*/
 		if len(node.Elems) == 0 {
 			// If we have no element handlers, we can just skip the whole thing...
-			m.skipValue(token)
+			err := m.skipValue(token)
+			if err != nil {
+				return err
+			}
 		} else {
 			err, shouldReturn := m.matchObjectOrArray(token, tokenData, node)
 			if err == nil && node.After != nil {
-				m.matchAfter(node.After)
+				err = m.matchAfter(node.After)
 			}
 
-			if shouldReturn {
+			if err != nil || shouldReturn {
 				return err
 			}
 
@@ -678,11 +708,14 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 			}
 		}
 	} else {
-		panic(fmt.Sprintf("invalid token read - tokenType: %v data: %v", token, string(tokenData)))
+		return unexpectedTokenError("value", token)
 	}
 
 	if node.After != nil {
-		m.matchAfter(node.After)
+		err := m.matchAfter(node.After)
+		if err != nil {
+			return err
+		}
 
 		if m.buckets.IsResolved(0) {
 			return nil
@@ -731,13 +764,11 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 				return nil, false
 			case tknArrayEnd:
 				return nil, false
-			case tknEnd:
-				return nil, true
 			case tknListDelim:
 				arrayIndex++
 			// nothing
 			default:
-				panic(fmt.Sprintf("expected object field element delimiter, received: %v", token))
+				return unexpectedTokenError("element delimiter", token), true
 			}
 		}
 
@@ -759,14 +790,10 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 			keyBytes = keyLitParse.ParseStringWLen(tokenData, tokenDataLen)
 		case tknEscString:
 			keyBytes = keyLitParse.ParseEscStringWLen(tokenData, tokenDataLen)
-		case tknArrayStart:
-			// Do nothing
-		case tknObjectStart:
-			// Do nothing
 		default:
 			// If it's an array, it's possible that we're grabbing a literal like int or float, and we should not panic
 			if !arrayMode {
-				panic(fmt.Sprintf("expected literal, received: %v", token))
+				return unexpectedTokenError("object key", token), true
 			}
 		}
 
@@ -780,7 +807,7 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 			}
 
 			if token != tknObjectKeyDelim {
-				panic(fmt.Sprintf("expected object key delimiter: got %v, %v", token, string(tokenData)))
+				return unexpectedTokenError("object key delimiter", token), true
 			}
 
 			token, tokenData, tokenDataLen, err = m.tokens.Step()
@@ -793,7 +820,10 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 		if keyElem, ok := node.Elems[keyString]; ok {
 			// Run the execution node that applies to this particular
 			// key of the object.
-			m.matchExec(token, tokenData, tokenDataLen, keyElem)
+			err = m.matchExec(token, tokenData, tokenDataLen, keyElem)
+			if err != nil {
+				return err, true
+			}
 
 			// Check if running this keys execution has resolved the entirety
 			// of the expression, if so we can leave immediately.
@@ -803,7 +833,10 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 		} else {
 			// If we don't have any parse requirements for this key in
 			// the object, we can just skip its value and continue
-			m.skipValue(token)
+			err = m.skipValue(token)
+			if err != nil {
+				return err, true
+			}
 		}
 	}
 	return nil, false
-- 
2.43.0


From 456943fc71b1cf06417ad53de7e0785c2fdef1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 04/28] fix: treat a slot that was never stored as a missing
 field

An unset slot was resolved by reading from the start of the document, so a
comparison of two fields or a loop could use the document itself in place of
a field that does not exist.
---
 fastMatcher.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index 2798384..c0f62fe 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -103,21 +103,24 @@ func unexpectedTokenError(expected string, token tokenType) error {
 func (m *FastMatcher) literalFromSlot(slot SlotID) FastVal {
 	value := NewMissingFastVal()
 
+	slotInfo := m.slots[slot-1]
+	if slotInfo.size == 0 {
+		// Nothing was stored in this slot, the field is missing.
+		return value
+	}
+
 	savePos := m.tokens.Position()
 
-	slotInfo := m.slots[slot-1]
 	m.tokens.Seek(slotInfo.start)
 	token, tokenData, _, _ := m.tokens.Step()
 
 	if isLiteralToken(token) {
 		var parser fastLitParser
 		value = parser.Parse(token, tokenData)
-	} else if slotInfo.size > 0 {
-		if token == tknObjectStart {
-			value = NewObjectFastVal(m.tokens.data[slotInfo.start : slotInfo.start+slotInfo.size])
-		} else if token == tknArrayStart {
-			value = NewArrayFastVal(m.tokens.data[slotInfo.start : slotInfo.start+slotInfo.size])
-		}
+	} else if token == tknObjectStart {
+		value = NewObjectFastVal(m.tokens.data[slotInfo.start : slotInfo.start+slotInfo.size])
+	} else if token == tknArrayStart {
+		value = NewArrayFastVal(m.tokens.data[slotInfo.start : slotInfo.start+slotInfo.size])
 	}
 
 	m.tokens.Seek(savePos)
@@ -543,6 +546,10 @@ func (m *FastMatcher) matchAfter(node *AfterNode) error {
 	for _, loop := range node.Loops {
 		if slot, ok := loop.Target.(SlotRef); ok {
 			slotInfo := m.slots[slot.Slot-1]
+			if slotInfo.size == 0 {
+				// The array to loop over is missing.
+				continue
+			}
 
 			m.tokens.Seek(slotInfo.start)
 			token, tokenData, _, err := m.tokens.Step()
-- 
2.43.0


From d7d275ca4ea1de15c6f180eeaae30a1be3d0e2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 05/28] fix: clear the slots of a loop body between iterations

A field which is missing from one array element was compared using the value
the previous element had for it.
---
 fastMatcher.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/fastMatcher.go b/fastMatcher.go
index c0f62fe..cc34c67 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -397,6 +397,29 @@ func (m *FastMatcher) matchElems(token tokenType, tokenData []byte, elems map[st
 	}
 }
 
+// resetSlots clears the slots which are stored by this node and its descendants, so
+// that a value which was stored for one loop iteration is not seen by the next one.
+func (m *FastMatcher) resetSlots(node *ExecNode) {
+	if m.def.NumSlots == 0 {
+		return
+	}
+
+	if node.StoreId > 0 {
+		m.slots[node.StoreId-1] = emptySlotData
+	}
+	for _, elem := range node.Elems {
+		m.resetSlots(elem)
+	}
+	for i := range node.Loops {
+		m.resetSlots(node.Loops[i].Node)
+	}
+	if node.After != nil {
+		for i := range node.After.Loops {
+			m.resetSlots(node.After.Loops[i].Node)
+		}
+	}
+}
+
 func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNode) error {
 	// Note that this assumes that the tokenizer has already been placed at the target
 	// that referenced the loop node itself...
@@ -462,6 +485,7 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 		// Reset the looping node in the binary tree so that previous iterations
 		// of the loop do not impact the results of this iteration
 		m.buckets.ResetNode(loopBucketIdx)
+		m.resetSlots(loop.Node)
 
 		// Run the execution node for this element of the array.
 		err = m.matchExec(token, tokenData, tokenDataLen, loop.Node)
-- 
2.43.0


From 001341a417fd44adc035a7b37bca05ba812f9158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 06/28] fix: evaluate operations on empty objects and arrays

Matching returned early for an empty object or array, skipping the operations
which apply to the container itself and not storing it for later ones.
---
 fastMatcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index cc34c67..78cc447 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -810,7 +810,7 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 
 		// Keep this here to catch any empty array or empty objs
 		if token == endToken {
-			return nil, true
+			return nil, false
 		}
 
 		// TODO(brett19): These byte-string conversion pieces are a bit wierd
-- 
2.43.0


From aa356b83c2aef8542e399a5451eabcf7d360b893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:50 +0000
Subject: [PATCH 07/28] fix: match indexed array elements next to loops over
 the same array

When an expression both loops over an array and refers to one of its elements
by index, the element was never looked at.
---
 fastMatcher.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index 78cc447..032fa63 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -688,24 +688,26 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 		}
 	} else if token == tknArrayStart {
 		arrayStartPos := m.tokens.Position() - 1 // Should be -1 to include the [
-		if len(node.Loops) == 0 {
+		// Lets save where the beginning of the array is so that for each
+		// loop entry, we can easily revert back to the beginning of the
+		// array to process the elements.
+		savePos := m.tokens.Position()
+
+		if len(node.Loops) == 0 || len(node.Elems) > 0 {
 			err, shouldReturn := m.matchObjectOrArray(token, tokenData, node)
 			if shouldReturn {
 				return err
 			}
-		} else {
-			// Lets save where the beginning of the array is so that for each
-			// loop entry, we can easily revert back to the beginning of the
-			// array to process the elements.
-			savePos := m.tokens.Position()
+		}
 
+		if len(node.Loops) > 0 {
 			for loopIdx, loop := range node.Loops {
 				if loop.Target != nil {
 					panic("loops must always target the active state")
 
 				}
-				if loopIdx != 0 {
-					// If this is not the first loop, we will need to reset back to the
+				if loopIdx != 0 || len(node.Elems) > 0 {
+					// If this is not the first scan of the array, we will need to reset back to the
 					// begining of the array the loops are scanning.  In the future, perhaps
 					// we can add support for parallel ExecNode handling and do it in one pass.
 					m.tokens.Seek(savePos)
-- 
2.43.0


From 636bf1f3dce03c15a364e8c3a3158ca8adf1b524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 08/28] fix: compile comparisons of a field with one of its own
 members

Comparing a with a.b indexed past the end of the shorter path and panicked.
The value of a must also be stored before the operations that run after it.
---
 fastMatcher.go | 27 ++++++++++-----------------
 transform.go   |  2 +-
 2 files changed, 11 insertions(+), 18 deletions(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index 032fa63..81a1a00 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -660,17 +660,9 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 			}
 		} else {
 			err, shouldReturn := m.matchObjectOrArray(token, tokenData, node)
-			if err == nil && node.After != nil {
-				err = m.matchAfter(node.After)
-			}
-
-			if err != nil || shouldReturn {
+			if shouldReturn {
 				return err
 			}
-
-			if m.buckets.IsResolved(0) {
-				return nil
-			}
 		}
 		objEndPos := m.tokens.Position()
 
@@ -744,6 +736,15 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 		return unexpectedTokenError("value", token)
 	}
 
+	endPos = m.tokens.Position()
+
+	// Store the value first, as what runs after this node can refer to it.
+	if node.StoreId > 0 {
+		slotData := &m.slots[node.StoreId-1]
+		slotData.start = startPos
+		slotData.size = endPos - startPos
+	}
+
 	if node.After != nil {
 		err := m.matchAfter(node.After)
 		if err != nil {
@@ -755,14 +756,6 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 		}
 	}
 
-	endPos = m.tokens.Position()
-
-	if node.StoreId > 0 {
-		slotData := &m.slots[node.StoreId-1]
-		slotData.start = startPos
-		slotData.size = endPos - startPos
-	}
-
 	return nil
 }
 
diff --git a/transform.go b/transform.go
index b3fb9e7..5286beb 100644
--- a/transform.go
+++ b/transform.go
@@ -205,7 +205,7 @@ PathLoop:
 	for j := 0; j < len(basePath); j++ {
 		for i := 0; i < len(contextFields); i++ {
 			deepField := contextFields[i]
-			if len(deepField.Path) < j || deepField.Path[j] != basePath[j] {
+			if len(deepField.Path) <= j || deepField.Path[j] != basePath[j] {
 				break PathLoop
 			}
 		}
-- 
2.43.0


From e2971c32e4ffd00d570a3a808130c5b1983e8a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 09/28] fix: search outer loop contexts for a loop variable

The search started at the innermost context and ran off the end of the stack,
so an inner loop which refers to the variable of an outer one did not compile.
---
 transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transform.go b/transform.go
index 5286beb..1f1037b 100644
--- a/transform.go
+++ b/transform.go
@@ -155,7 +155,7 @@ func (t *Transformer) getContext(varID VariableID) *compileContext {
 		return nil
 	}
 
-	for i := len(t.ContextStack) - 1; i >= 0; i++ {
+	for i := len(t.ContextStack) - 1; i >= 0; i-- {
 		if t.ContextStack[i].Var == varID {
 			return t.ContextStack[i]
 		}
-- 
2.43.0


From ca766bce05a216e4b4d12bd1b2626d671bcf3eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 10/28] fix: compile inner loops over a field of an outer
 context

An inner loop whose array does not belong to the variable of the enclosing
loop panicked while compiling, as it was added to a node instead of being run
after it.
---
 transform.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/transform.go b/transform.go
index 1f1037b..8e6d583 100644
--- a/transform.go
+++ b/transform.go
@@ -429,6 +429,15 @@ func (t *Transformer) transformLoop(expr Expression, loopType LoopType, varID Va
 		panic(err)
 	}
 
+	if _, ok := loopTarget.(SlotRef); ok && baseNode.node != nil {
+		// We are looping over a field from outside of the loop that we are in,
+		// this can only run once the node has been processed.
+		baseNode = nodeRef{
+			node:  nil,
+			after: t.getAfterNode(baseNode.node),
+		}
+	}
+
 	baseBucketIdx := t.ActiveBucketIdx
 	t.RootTree.data[baseBucketIdx].NodeType = nodeTypeLoop
 	t.newBucket()
-- 
2.43.0


From 3cb8c87f0e0b5793d5b22536bb4a7d39d7a566e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:24 +0000
Subject: [PATCH 11/28] fix: evaluate constants nested in an expression

TRUE was only recognised as a whole expression, anywhere below that it did not
resolve and counted as false, so the filters TRUE and a = 1 OR TRUE matched no
document. Constants and IS MISSING in the body of a loop did not compile.
---
 expression_utils.go |  4 ++++
 transform.go        | 20 ++++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/expression_utils.go b/expression_utils.go
index 2a911c6..3cd921d 100644
--- a/expression_utils.go
+++ b/expression_utils.go
@@ -19,6 +19,8 @@ func fieldExprMatches(lhs FieldExpr, rhs FieldExpr) bool {
 
 func fetchExprFieldRefsRecurse(expr Expression, loopVars []VariableID, fields []FieldExpr) []FieldExpr {
 	switch expr := expr.(type) {
+	case TrueExpr:
+	case FalseExpr:
 	case FieldExpr:
 		isLoopVarRef := false
 		for _, loopVar := range loopVars {
@@ -96,6 +98,8 @@ func fetchExprFieldRefsRecurse(expr Expression, loopVars []VariableID, fields []
 		fields = fetchExprFieldRefsRecurse(expr.Rhs, loopVars, fields)
 	case ExistsExpr:
 		fields = fetchExprFieldRefsRecurse(expr.SubExpr, loopVars, fields)
+	case NotExistsExpr:
+		fields = fetchExprFieldRefsRecurse(expr.SubExpr, loopVars, fields)
 	case LikeExpr:
 		fields = fetchExprFieldRefsRecurse(expr.Lhs, loopVars, fields)
 		fields = fetchExprFieldRefsRecurse(expr.Rhs, loopVars, fields)
diff --git a/transform.go b/transform.go
index 8e6d583..ae0d96f 100644
--- a/transform.go
+++ b/transform.go
@@ -551,8 +551,28 @@ func (t *Transformer) transformLike(expr LikeExpr) *ExecNode {
 	return t.transformComparison(expr, OpTypeMatches, expr.Lhs, expr.Rhs)
 }
 
+// transformTrue adds an operation which is always true for whatever value
+// the active context has.
+func (t *Transformer) transformTrue(expr TrueExpr) *ExecNode {
+	baseNode := t.pickBaseNode(expr)
+
+	baseNode.AddOp(OpNode{
+		t.ActiveBucketIdx,
+		OpTypeExists,
+		nil,
+		nil,
+	})
+
+	return nil
+}
+
 func (t *Transformer) transformOne(expr Expression) *ExecNode {
 	switch expr := expr.(type) {
+	case TrueExpr:
+		return t.transformTrue(expr)
+	case FalseExpr:
+		// A leaf without any operation resolves to false
+		return nil
 	case mergeExpr:
 		return t.transformMerge(expr)
 	case AnyInExpr:
-- 
2.43.0


From 64473fddffcf66ec45eafdec27a78662e8dd85dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 12/28] fix: match definitions which contain constant
 expressions

Match and ExpressionMatched indexed with, or dereferenced, the placeholders
that are used for the constants true and false.
---
 fastMatcher.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index 81a1a00..c8cc854 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -880,6 +880,11 @@ func (m *FastMatcher) Match(data []byte) (bool, error) {
 		return false, err
 	}
 
+	if m.def.ParseNode == nil {
+		// All the expressions are constants, there is nothing to evaluate.
+		return m.hasAlwaysTrue(), nil
+	}
+
 	err = m.matchExec(token, tokenData, tokenDataLen, m.def.ParseNode)
 	if err != nil {
 		return false, err
@@ -889,7 +894,17 @@ func (m *FastMatcher) Match(data []byte) (bool, error) {
 	// operators such as NOT and NEOR to correctly be resolved.
 	m.buckets.Resolve()
 
-	return m.buckets.IsTrue(0), nil
+	return m.buckets.IsTrue(0) || m.hasAlwaysTrue(), nil
+}
+
+// hasAlwaysTrue returns whether any of the expressions is the constant true.
+func (m *FastMatcher) hasAlwaysTrue() bool {
+	for _, binTreeIdx := range m.def.MatchBuckets {
+		if binTreeIdx == AlwaysTrueIdent {
+			return true
+		}
+	}
+	return false
 }
 
 func (m *FastMatcher) MatchWithStatus(data []byte) (bool, int, error) {
@@ -903,6 +918,12 @@ func (m *FastMatcher) MatchWithStatus(data []byte) (bool, int, error) {
 
 func (m *FastMatcher) ExpressionMatched(expressionIdx int) bool {
 	binTreeIdx := m.def.MatchBuckets[expressionIdx]
+	switch binTreeIdx {
+	case AlwaysTrueIdent:
+		return true
+	case AlwaysFalseIdent:
+		return false
+	}
 	return m.buckets.IsResolved(binTreeIdx) &&
 		m.buckets.IsTrue(binTreeIdx)
 }
-- 
2.43.0


From 515aeec06bcc8335e1fb54abe9e54ba8abd75ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 13/28] fix: resolve operations a loop iteration has no value
 for

Operations which did not run for an array element were only resolved at the
end of the document, so NOT of a missing field was not true inside of a loop.
For a loop which never ran the body was resolved as if it had been evaluated,
so a loop over a missing array could be true.
---
 bintree.go     | 39 ++++++++++++++++++++++++++-------------
 fastMatcher.go |  4 ++++
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/bintree.go b/bintree.go
index eee2bcd..65b6b93 100644
--- a/bintree.go
+++ b/bintree.go
@@ -253,23 +253,36 @@ func (state *binTreeState) SetStallIndex(index int) int {
 // Resolve forces the tree to be fully resolved (including cases such as NOT)
 // by doing a depth-first resolution of all unresolved nodes with `false`.
 func (state *binTreeState) Resolve() {
-	// Skip resolving if the full tree is already resolved
-	if state.IsResolved(0) {
+	state.ResolveNode(0)
+}
+
+// ResolveNode forces a node of the tree to be resolved, by doing a depth-first
+// resolution of all the unresolved leafs below it with `false`.
+func (state *binTreeState) ResolveNode(index int) {
+	if state.IsResolved(index) {
 		return
 	}
 
-	// Do depth-first resolution of the entire tree state
-	treeLength := len(state.data)
-	for i := treeLength - 1; i >= 0; i-- {
-		// If this bucket is not resolved, resolve it with false
-		if state.data[i] == binTreeStateUnknown {
-			state.MarkNode(i, false)
-		}
+	defNode := state.tree.data[index]
+	if defNode.NodeType == nodeTypeLeaf {
+		state.MarkNode(index, false)
+		return
+	}
 
-		// Leave as soon as the root has been resolved
-		if state.data[0] != binTreeStateUnknown {
-			break
-		}
+	if defNode.NodeType == nodeTypeLoop {
+		// The loop never ran.  Its own result is what is false, rather than
+		// the operations which make up the body of the loop.
+		state.MarkNode(defNode.Left, false)
+		return
+	}
+
+	if binTreeNodeTypeHasRight(defNode.NodeType) {
+		state.ResolveNode(defNode.Right)
+	}
+
+	// Leave as soon as the node itself has been resolved
+	if !state.IsResolved(index) {
+		state.ResolveNode(defNode.Left)
 	}
 }
 
diff --git a/fastMatcher.go b/fastMatcher.go
index c8cc854..4390393 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -493,6 +493,10 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 			return err
 		}
 
+		// Resolve what this element had no value for, so that operators such as
+		// NOT are correctly resolved for this iteration.
+		m.buckets.ResolveNode(loopBucketIdx)
+
 		iterationMatched := m.buckets.IsTrue(loopBucketIdx)
 		if loop.Mode == LoopTypeAny {
 			if iterationMatched {
-- 
2.43.0


From 6f29d531b3e7bb6ca2d323cef36e6e91afd93c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 14/28] fix: do not panic on integer division by zero

Dividing by zero was only checked for when the dividend was unsigned. For a
signed one a document could make the matcher panic.
---
 fastval_math.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/fastval_math.go b/fastval_math.go
index 0b7ef9a..0122ab8 100644
--- a/fastval_math.go
+++ b/fastval_math.go
@@ -462,7 +462,9 @@ func FastValMathDiv(val, val1 FastVal) FastVal {
 			fallthrough
 		case JsonUintValue:
 			uint1Check, valid1 := val1.AsUint()
-			if !valid1 || intCheck < 0 && uint1Check > math.MaxInt64 {
+			if valid1 && uint1Check == 0 {
+				return NewInvalidFastVal()
+			} else if !valid1 || intCheck < 0 && uint1Check > math.MaxInt64 {
 				// Cannot convert to int type
 				return genericFastVal2FloatsOp(val, val1, fastValMathDiv)
 			} else {
@@ -475,6 +477,10 @@ func FastValMathDiv(val, val1 FastVal) FastVal {
 		case IntValue:
 			fallthrough
 		case JsonIntValue:
+			int1Check, valid1 := val1.AsInt()
+			if !valid1 || int1Check == 0 {
+				return NewInvalidFastVal()
+			}
 			return genericFastVal2IntsOp(val, val1, fastValMathDivInt)
 		case FloatValue:
 			fallthrough
@@ -532,7 +538,9 @@ func FastValMathMod(val, val1 FastVal) FastVal {
 			fallthrough
 		case JsonUintValue:
 			uint1Check, valid1 := val1.AsUint()
-			if !valid1 || intCheck < 0 && uint1Check > math.MaxInt64 {
+			if valid1 && uint1Check == 0 {
+				return NewInvalidFastVal()
+			} else if !valid1 || intCheck < 0 && uint1Check > math.MaxInt64 {
 				// Cannot convert to int type
 				return NewInvalidFastVal()
 			} else {
@@ -545,6 +553,10 @@ func FastValMathMod(val, val1 FastVal) FastVal {
 		case IntValue:
 			fallthrough
 		case JsonIntValue:
+			int1Check, valid1 := val1.AsInt()
+			if !valid1 || int1Check == 0 {
+				return NewInvalidFastVal()
+			}
 			return genericFastVal2IntsOp(val, val1, fastValMathMod)
 		default:
 			return NewInvalidFastVal()
-- 
2.43.0


From 74d310b8cb813cd81a8ef40d4abe026e090bab98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:33 +0000
Subject: [PATCH 15/28] fix: accept a string as the last element of an array
 when removing items

The end of an array was not counted when it came right after a string, so
these documents were reported as invalid JSON.
---
 jsonComposer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonComposer.go b/jsonComposer.go
index d517fac..41d8755 100644
--- a/jsonComposer.go
+++ b/jsonComposer.go
@@ -130,7 +130,7 @@ func MatchAndRemoveItemsFromJsonObject(src []byte, remove []string, dst []byte,
 					return handleError(err)
 				}
 
-				if tknType2 == tknObjectEnd {
+				if tknType2 == tknObjectEnd || tknType2 == tknArrayEnd {
 					depth--
 					if depth < 0 {
 						return handleError(ErrInvalidJSON)
-- 
2.43.0


From 00dd856d9bddd82a95db733c76c8a8fa19545f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 16/28] fix: report a destination which is too small instead of
 writing past it

A short destination made the composer panic, or write into the memory between
the length and the capacity of the slice, which belongs to the caller.
---
 jsonComposer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonComposer.go b/jsonComposer.go
index 41d8755..2e5b973 100644
--- a/jsonComposer.go
+++ b/jsonComposer.go
@@ -41,10 +41,10 @@ func (composer *jsonObjComposer) Write(data []byte, tknType tokenType) error {
 	if tknType == tknObjectEnd && composer.prevTokenType == tknListDelim {
 		composer.pos--
 	}
-	n := copy(composer.body[composer.pos:composer.pos+len(data)], data)
-	if n != len(data) {
+	if len(data) > len(composer.body)-composer.pos {
 		return ErrInsufficientMemory
 	}
+	copy(composer.body[composer.pos:], data)
 	composer.pos += len(data)
 	composer.prevTokenType = tknType
 	return nil
-- 
2.43.0


From 8a8ea51011cf9648b499302c69ed588a510ef6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 17/28] fix: remove an item once when its key is listed more
 than once

After an item was removed the remaining keys were still compared with it, and
a key which was listed twice consumed the items that follow it.
---
 jsonComposer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonComposer.go b/jsonComposer.go
index 2e5b973..c90ce41 100644
--- a/jsonComposer.go
+++ b/jsonComposer.go
@@ -257,6 +257,9 @@ func MatchAndRemoveItemsFromJsonObject(src []byte, remove []string, dst []byte,
 			} else if tknType4 == tknUnknown {
 				return handleError(ErrUnrecognisedToken)
 			}
+
+			// The item is gone, so the same key must not be matched once more
+			break
 		}
 
 		if !matched {
-- 
2.43.0


From c4975d7cc2aa075a701c00d09b513be146461c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 18/28] fix: loop over object members in a fixed order in the
 slow matcher

A loop over an object visited its members in random order, so the same document
could either match or fail with an error.
---
 slowmatcher.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/slowmatcher.go b/slowmatcher.go
index f77d3de..8cb9eeb 100644
--- a/slowmatcher.go
+++ b/slowmatcher.go
@@ -5,6 +5,7 @@ package gojsonsm
 import (
 	"encoding/json"
 	"errors"
+	"sort"
 	"strings"
 )
 
@@ -139,8 +140,16 @@ func (m *SlowMatcher) matchAnyInExpr(expr AnyInExpr) (bool, error) {
 
 	switch vals := vals.(type) {
 	case map[string]interface{}:
-		for _, val := range vals {
-			m.vars[expr.VarId] = val
+		// Visit the members in a fixed order, as a member which fails to evaluate
+		// would otherwise decide the outcome only some of the time.
+		keys := make([]string, 0, len(vals))
+		for key := range vals {
+			keys = append(keys, key)
+		}
+		sort.Strings(keys)
+
+		for _, key := range keys {
+			m.vars[expr.VarId] = vals[key]
 			res, err := m.matchOne(expr.SubExpr)
 			delete(m.vars, expr.VarId)
 
-- 
2.43.0


From 12027da30b92ff9e86b6451b57bfb64e8df50c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:23 +0000
Subject: [PATCH 19/28] fix: reject malformed JSON expressions instead of
 panicking

Expressions with missing entries, parameters of the wrong type or a regular
expression which does not compile made the parser or the transformer panic.
---
 expression_json.go | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/expression_json.go b/expression_json.go
index 36ca66e..47e371c 100644
--- a/expression_json.go
+++ b/expression_json.go
@@ -5,6 +5,7 @@ package gojsonsm
 import (
 	"encoding/json"
 	"errors"
+	"regexp"
 )
 
 func parseJsonValue(data []interface{}) (Expression, error) {
@@ -39,7 +40,10 @@ func parseJsonFunc(data []interface{}) (Expression, error) {
 		pos++
 	}
 	for ; pos < len(data); pos++ {
-		paramData := data[pos].([]interface{})
+		paramData, ok := data[pos].([]interface{})
+		if !ok {
+			return nil, errors.New("invalid func expression parameter format")
+		}
 		param, err := parseJsonSubexpr(paramData)
 		if err != nil {
 			return nil, err
@@ -277,13 +281,20 @@ func parseJsonLike(data []interface{}) (Expression, error) {
 }
 
 func parseJsonRegex(data []interface{}) (Expression, error) {
+	regexStr, ok := data[1].(string)
+	if !ok {
+		return nil, errors.New("invalid regex expression format")
+	}
+	if _, err := regexp.Compile(regexStr); err != nil {
+		return nil, err
+	}
 	return RegexExpr{
 		data[1],
 	}, nil
 }
 
 func parseJsonTime(data []interface{}) (Expression, error) {
-	if dateStr, ok := data[1].(string); ok && !validTimeChecker(dateStr) {
+	if dateStr, ok := data[1].(string); !ok || !validTimeChecker(dateStr) {
 		return nil, ErrorInvalidTimeFormat
 	}
 	return TimeExpr{
@@ -291,13 +302,34 @@ func parseJsonTime(data []interface{}) (Expression, error) {
 	}, nil
 }
 
+// jsonExprMinLen returns how many entries an expression needs at the least,
+// including the one for its type.
+func jsonExprMinLen(exprType string) int {
+	switch exprType {
+	case "anyin", "everyin", "anyeveryin":
+		return 4
+	case "equals", "notequals", "lessthan", "lessequals", "greaterthan", "greaterequals", "like":
+		return 3
+	default:
+		return 2
+	}
+}
+
 func parseJsonSubexpr(data []interface{}) (Expression, error) {
+	if len(data) == 0 {
+		return nil, errors.New("invalid expression format")
+	}
+
 	exprType, ok := data[0].(string)
 	if !ok {
 
 		return nil, errors.New("invalid expression type format")
 	}
 
+	if len(data) < jsonExprMinLen(exprType) {
+		return nil, errors.New("invalid " + exprType + " expression format")
+	}
+
 	switch exprType {
 	case "value":
 		return parseJsonValue(data)
-- 
2.43.0


From afbf072cbb756e5d954c2b83a87fb36010550a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 20/28] fix: return an error for a regular expression which
 does not compile

The filter was accepted and then panicked in the transformer.
---
 filterExprParser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/filterExprParser.go b/filterExprParser.go
index 0ae5962..185aec3 100644
--- a/filterExprParser.go
+++ b/filterExprParser.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"github.com/alecthomas/participle"
 	"math"
+	"regexp"
 	"strings"
 )
 
@@ -1187,7 +1188,11 @@ func (f *FEConstFuncArgumentRHS) OutputRegexExpression() (Expression, error) {
 	if tokenIsPcreValueType(f.Argument.String()) {
 		return MakePcreExpression(f.Argument.String())
 	} else {
-		return RegexExpr{f.Argument.String()}, nil
+		regexStr := f.Argument.String()
+		if _, err := regexp.Compile(regexStr); err != nil {
+			return nil, fmt.Errorf("Invalid regular expression %v: %v", regexStr, err)
+		}
+		return RegexExpr{regexStr}, nil
 	}
 }
 
-- 
2.43.0


From 0a5a7e29fd50887cba760afb462046efb84680e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 21/28] fix: do not split a closing parenthesis inside quotes
 forever

---
 simpleParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpleParser.go b/simpleParser.go
index 63bf698..687de31 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -788,7 +788,7 @@ func (ctx *expressionParserContext) getUnfinishedValueHelper(delim string) (stri
 	for ctx.currentTokenIndex++; ctx.currentTokenIndex < tokensLen; ctx.currentTokenIndex++ {
 		var breakout bool
 		token := ctx.tokens[ctx.currentTokenIndex]
-		if ctx.parenDepth > 0 && strings.HasSuffix(token, ")") {
+		if ctx.parenDepth > 0 && token != ")" && strings.HasSuffix(token, ")") {
 			ctx.handleParenSuffix(")")
 			tokensLen = len(ctx.tokens)
 			token = ctx.tokens[ctx.currentTokenIndex]
-- 
2.43.0


From c6a18c756a8dcf1fe5fa5ebefa80946efde98a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 22/28] fix: reject a parenthesis merged before an operator was
 parsed

---
 simpleParser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 687de31..b76bb57 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1113,10 +1113,10 @@ func (ctx *expressionParserContext) mergeAndRestoreSubContexts(olderSubCtx *pars
 	}
 
 	// Boundary check
-	if olderSubCtx.lastOpIndex >= len(ctx.parserTree.data) {
+	if olderSubCtx.lastOpIndex < 0 || olderSubCtx.lastOpIndex >= len(ctx.parserTree.data) {
 		return ErrorNotFound
 	}
-	if ctx.subCtx.lastOpIndex >= len(ctx.parserTree.data) {
+	if ctx.subCtx.lastOpIndex < 0 || ctx.subCtx.lastOpIndex >= len(ctx.parserTree.data) {
 		return ErrorNotFound
 	}
 
-- 
2.43.0


From e1bdf3d4c489d8933bcfc742af676782f2f17ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:54 +0000
Subject: [PATCH 23/28] fix: return an error for a loop over a value which is
 no array

---
 slowmatcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slowmatcher.go b/slowmatcher.go
index 8cb9eeb..6844cb3 100644
--- a/slowmatcher.go
+++ b/slowmatcher.go
@@ -181,7 +181,7 @@ func (m *SlowMatcher) matchAnyInExpr(expr AnyInExpr) (bool, error) {
 		return false, nil
 	}
 
-	panic("unexpected any in param type")
+	return false, errors.New("unexpected any in param type")
 }
 
 func (m *SlowMatcher) matchEqualsExpr(expr EqualsExpr) (bool, error) {
-- 
2.43.0


From 13df071fe4fede234b281cd815d734b52db50079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:05 +0000
Subject: [PATCH 24/28] fix: loop over an array which the loop body refers to

---
 transform.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/transform.go b/transform.go
index ae0d96f..96a355b 100644
--- a/transform.go
+++ b/transform.go
@@ -424,6 +424,20 @@ func (t *Transformer) transformLoop(expr Expression, loopType LoopType, varID Va
 
 	newNode := &ExecNode{}
 
+	// When the loop body refers to the value that we are looping over as a whole,
+	// the loop can only run once the value has been stored.
+	if baseNode.node != nil {
+		for _, field := range fetchExprFieldRefsRecurse(subExpr, []VariableID{varID}, nil) {
+			if t.getExecNode(t.resolveRef(field)) == baseNode.node {
+				baseNode = nodeRef{
+					node:  nil,
+					after: t.getAfterNode(baseNode.node),
+				}
+				break
+			}
+		}
+	}
+
 	loopTarget, err := t.makeDataRef(inExpr, baseNode)
 	if err != nil {
 		panic(err)
-- 
2.43.0


From 8ae966416b7a94937367ba4494581df90c07a898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:01 +0000
Subject: [PATCH 25/28] fix: do not compare functions of missing fields

---
 fastMatcher.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index 4390393..43927e9 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -236,6 +236,21 @@ func (m *FastMatcher) resolveParam(in interface{}, activeLit *FastVal) FastVal {
 	}
 }
 
+// hasMissingSlot tells whether a parameter refers to a slot which has no value.
+func (m *FastMatcher) hasMissingSlot(in interface{}) bool {
+	switch opVal := in.(type) {
+	case SlotRef:
+		return m.slots[opVal.Slot-1].size == 0
+	case FuncRef:
+		for _, param := range opVal.Params {
+			if m.hasMissingSlot(param) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func (m *FastMatcher) matchOp(op *OpNode, litVal *FastVal) error {
 	bucketIdx := int(op.BucketIdx)
 
@@ -245,13 +260,11 @@ func (m *FastMatcher) matchOp(op *OpNode, litVal *FastVal) error {
 		return nil
 	}
 
-	var slotNotFound bool
+	slotNotFound := m.hasMissingSlot(op.Lhs) || m.hasMissingSlot(op.Rhs)
+
 	lhsVal := NewMissingFastVal()
 	if op.Lhs != nil {
 		lhsVal = m.resolveParam(op.Lhs, litVal)
-		if _, ok := op.Lhs.(SlotRef); ok && lhsVal.IsMissing() {
-			slotNotFound = true
-		}
 	} else if litVal != nil {
 		lhsVal = *litVal
 	}
@@ -259,9 +272,6 @@ func (m *FastMatcher) matchOp(op *OpNode, litVal *FastVal) error {
 	rhsVal := NewMissingFastVal()
 	if op.Rhs != nil {
 		rhsVal = m.resolveParam(op.Rhs, litVal)
-		if _, ok := op.Rhs.(SlotRef); ok && rhsVal.IsMissing() {
-			slotNotFound = true
-		}
 	} else if litVal != nil {
 		rhsVal = *litVal
 	}
-- 
2.43.0


From 7ea96f126552ce33394aec1c53ee737b511d6c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:32 +0000
Subject: [PATCH 26/28] fix: run inner loops over outer fields whatever the
 element holds

---
 transform.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/transform.go b/transform.go
index 96a355b..01d1d70 100644
--- a/transform.go
+++ b/transform.go
@@ -424,6 +424,19 @@ func (t *Transformer) transformLoop(expr Expression, loopType LoopType, varID Va
 
 	newNode := &ExecNode{}
 
+	if inField, ok := inExpr.(FieldExpr); ok && len(t.ContextStack) > 0 {
+		currentContext := t.ContextStack[len(t.ContextStack)-1]
+		if t.resolveRef(inField).Context != currentContext {
+			// We are looping over a field from outside of the loop that we are in,
+			// this can only run once the element of that loop has been processed,
+			// whether or not it has the fields that the body refers to.
+			baseNode = nodeRef{
+				node:  nil,
+				after: t.getAfterNode(currentContext.Node),
+			}
+		}
+	}
+
 	// When the loop body refers to the value that we are looping over as a whole,
 	// the loop can only run once the value has been stored.
 	if baseNode.node != nil {
@@ -443,15 +456,6 @@ func (t *Transformer) transformLoop(expr Expression, loopType LoopType, varID Va
 		panic(err)
 	}
 
-	if _, ok := loopTarget.(SlotRef); ok && baseNode.node != nil {
-		// We are looping over a field from outside of the loop that we are in,
-		// this can only run once the node has been processed.
-		baseNode = nodeRef{
-			node:  nil,
-			after: t.getAfterNode(baseNode.node),
-		}
-	}
-
 	baseBucketIdx := t.ActiveBucketIdx
 	t.RootTree.data[baseBucketIdx].NodeType = nodeTypeLoop
 	t.newBucket()
-- 
2.43.0


From f07ce0d21e409ac60220666788417847ee02aa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:39 +0000
Subject: [PATCH 27/28] fix: accept constant functions as arguments of
 functions

---
 simpleParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpleParser.go b/simpleParser.go
index b76bb57..a9c5c13 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1393,7 +1393,7 @@ func (ctx *expressionParserContext) outputFunc(pos int) (Expression, error) {
 			if err != nil {
 				return out, fmt.Errorf("Error: Unable to output subFx: %v", err)
 			}
-			out.Params = append(out.Params, subFuncExpr.(FuncExpr))
+			out.Params = append(out.Params, subFuncExpr)
 		} else if fieldTokens, isField := helper.args[curLevel][i].([]string); isField {
 			var argField FieldExpr
 			argField.Path = fieldTokens
-- 
2.43.0


From 427e2c9d2c5c47c81d21911093494fff4c3bd902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 28/28] fix: a reused Transformer numbers the slots of each
 filter from zero

Transform left SlotIdx where the last filter had ended, so every further
filter compiled with the same Transformer had all the slots of the earlier
ones too, and its matchers' memory and Reset grew with the number of
compilations.
---
 transform.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transform.go b/transform.go
index 01d1d70..18f47ad 100644
--- a/transform.go
+++ b/transform.go
@@ -633,6 +633,7 @@ var AlwaysFalseIdent = -2
 func (t *Transformer) Transform(exprs []Expression) *MatchDef {
 	t.RootExec = &ExecNode{}
 	t.ContextStack = nil
+	t.SlotIdx = 0
 	t.BucketIdx = 1
 	t.ActiveBucketIdx = 0
 	t.RootTree = binTree{[]binTreeNode{
-- 
2.43.0

