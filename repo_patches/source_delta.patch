From 4ad423c5e9fa50b8f6aec6889fa03091d9391c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 01/39] fix: report a JSON path which does not start at the
 root instead of dropping the error

---
 jom/json_map/json_path_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index 6891d6a..ae0f78b 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -281,7 +281,7 @@ func ParseJsonPath(jsonPath string) (absolutePaths AbsolutePaths, err error) {
 		// If there are no occurrences found or the occurrence doesn't start at the beginning of the buffer then error out
 		if len(occurrences) == 0 || occurrences[0] != 0 {
 			err = globals.JsonPathError.FillError(fmt.Sprintf("%s token does not come after %s", currentState.name, previousState.name))
-			break
+			return nil, err
 		}
 
 		// Consume len(token) number of bytes
-- 
2.43.0


From 7a9f8ce46859235dfff4ae2686cab4aa5c901586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 02/39] fix: parse a negative array index into an index key
 instead of dropping it from the path

---
 jom/json_map/json_path_parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index ae0f78b..4dfab39 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -74,9 +74,9 @@ var (
 			// Create an array of AbsolutePathKeys which will be added to the AbsolutePaths at the end
 			absolutePathKeys = make([]AbsolutePathKey, 0)
 			switch {
-			case regexp.MustCompile("\\[\\d+]").Match(token):
+			case regexp.MustCompile("\\[-?\\d+]").Match(token):
 				// Normal array index
-				n, err := strconv.Atoi(string(regexp.MustCompile("\\d+").Find(token)))
+				n, err := strconv.Atoi(string(regexp.MustCompile("-?\\d+").Find(token)))
 				if err != nil {
 					return absolutePathKeys, []error{globals.JsonPathError.FillError(fmt.Sprintf("Could not convert index %s into an integer", string(token)))}
 				}
-- 
2.43.0


From bd3d42d80bdff5798973997a9386e690bda6210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 03/39] fix: chain consecutive first descents instead of
 treating them as alternative paths

---
 jom/json_map/json_path_parse.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index 4dfab39..f5601d0 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -242,7 +242,16 @@ func (s *state) handler(togo []byte, absolutePaths *AbsolutePaths) (next *state,
 		//fmt.Println("nextPaths:", nextPaths, "token:", string(token), "togo:", string(togo))
 
 		// Add the nextPath variable to the end of all absolute paths
-		errs = absolutePaths.AddToAll(nil, false, nextPaths...)
+		if next == &dot {
+			// Each First key is a further descent down every path, not an alternative to the other First keys
+			for _, nextPath := range nextPaths {
+				if errs = absolutePaths.AddToAll(nil, false, nextPath); errs != nil {
+					break
+				}
+			}
+		} else {
+			errs = absolutePaths.AddToAll(nil, false, nextPaths...)
+		}
 		if errs != nil {
 			return nil, globals.JsonPathError.FillFromErrors(errs)
 		}
-- 
2.43.0


From 9ce8ba7cab820328f34644eaa29111c228e33521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 04/39] fix: do not modify the shared token expressions each
 time that a JSON path is parsed

---
 jom/json_map/json_path_parse.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index f5601d0..c4aee5d 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -206,6 +206,13 @@ var fromStateToStates = map[string][]*state{
 	"Filter Expression ([?(...)])": {&recursiveLookup, &dot, &index, &filter},
 }
 
+// Always try to find the longest token. This is done once, as paths can be parsed concurrently.
+func init() {
+	for _, state := range []*state{&root, &dot, &index, &filter, &property, &recursiveLookup} {
+		state.tokenRegex.Longest()
+	}
+}
+
 // Will decide the next state given a list of possible states and call the validator for that next state.
 func (s *state) handler(togo []byte, absolutePaths *AbsolutePaths) (next *state, err error) {
 	//fmt.Println("togo:", string(togo), "togo len:", len(togo))
@@ -272,10 +279,6 @@ func ParseJsonPath(jsonPath string) (absolutePaths AbsolutePaths, err error) {
 	currentState := &root
 	jsonPathReader := bufio.NewReader(strings.NewReader(jsonPath))
 
-	for _, state := range []*state{&root, &dot, &index, &filter, &property, &recursiveLookup} {
-		state.tokenRegex.Longest()
-	}
-
 	for {
 		// Break out if at finish state
 		if currentState.name == "End" {
-- 
2.43.0


From 1fc204a097062f976ecdd8e64a600108f1c1700a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 05/39] fix: end a filter expression at its own closing bracket
 instead of at the last one in the JSON path

---
 jom/json_map/json_path_parse.go | 43 ++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index c4aee5d..2177c90 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -55,7 +55,7 @@ var (
 			// We just add the expression body to the absolute path keys
 			absolutePathKeys = []AbsolutePathKey{{
 				KeyType: Filter,
-				Value:   string(regexp.MustCompile("(\\[\\?\\(|\\)])").ReplaceAll(token, []byte(""))),
+				Value:   string(token[len("[?("):len(token) - len(")]")]),
 			}}
 			return absolutePathKeys, nil
 		},
@@ -213,6 +213,43 @@ func init() {
 	}
 }
 
+// Finds the location of the first token of the state within the given characters.
+//
+// The expression for filters matches up until the last ")]". As there can be more than one filter in a JSON path, the
+// token is cut off at the ")]" which closes the filter (ignoring any brackets within string literals).
+func (s *state) findToken(togo []byte) []int {
+	loc := s.tokenRegex.FindIndex(togo)
+	if s.name != filter.name || len(loc) == 0 || loc[0] != 0 {
+		return loc
+	}
+	depth := 0
+	var quote byte
+	for i := 0; i < loc[1]; i++ {
+		switch char := togo[i]; {
+		case quote != 0 && char == '\\':
+			// Skip escaped characters in string literals
+			i++
+		case quote != 0:
+			if char == quote {
+				quote = 0
+			}
+		case char == '"' || char == '\'':
+			quote = char
+		case char == '(' || char == '[':
+			depth++
+		case char == ')' || char == ']':
+			depth--
+			if depth == 0 && togo[i - 1] == ')' {
+				return []int{0, i + 1}
+			}
+			if depth == 0 {
+				return loc
+			}
+		}
+	}
+	return loc
+}
+
 // Will decide the next state given a list of possible states and call the validator for that next state.
 func (s *state) handler(togo []byte, absolutePaths *AbsolutePaths) (next *state, err error) {
 	//fmt.Println("togo:", string(togo), "togo len:", len(togo))
@@ -226,7 +263,7 @@ func (s *state) handler(togo []byte, absolutePaths *AbsolutePaths) (next *state,
 		// Find which state is next by checking the regex of each possible state on the characters to go
 		for _, possibleState := range possibleStates {
 			// If possible state's regex matches the start of the characters to go then that is the next state
-			if occurrences := possibleState.tokenRegex.FindIndex(togo); len(occurrences) != 0 && occurrences[0] == 0 {
+			if occurrences := possibleState.findToken(togo); len(occurrences) != 0 && occurrences[0] == 0 {
 				next = possibleState
 				token = togo[occurrences[0]:occurrences[1]]
 				break
@@ -289,7 +326,7 @@ func ParseJsonPath(jsonPath string) (absolutePaths AbsolutePaths, err error) {
 		// Peak all the bytes until the end of the buffer
 		next, _ := jsonPathReader.Peek(jsonPathReader.Size())
 		// Always try to find the longest
-		occurrences := currentState.tokenRegex.FindIndex(next)
+		occurrences := currentState.findToken(next)
 		// If there are no occurrences found or the occurrence doesn't start at the beginning of the buffer then error out
 		if len(occurrences) == 0 || occurrences[0] != 0 {
 			err = globals.JsonPathError.FillError(fmt.Sprintf("%s token does not come after %s", currentState.name, previousState.name))
-- 
2.43.0


From 73e22286793065101c0ee4689e1ffe8e2a268d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 06/39] fix: keep an error of an earlier key when a later
 filter in the JSON path succeeds

---
 jom/jom.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 3073385..0405ff9 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -482,8 +482,11 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 			case json_map.Filter:
 				// Using the filterRunner function we can run the filter on the values of each key in the map
 				filterExp := []byte(key.Value.(string))
-				currValue, err = filterRunner(m, filterExp, jsonMap, true, false)
-				if err != nil {
+				var filterErr error
+				currValue, filterErr = filterRunner(m, filterExp, jsonMap, true, false)
+				// A filter must not clear an error that occurred earlier in the path
+				if filterErr != nil {
+					err = filterErr
 					break
 				}
 			case json_map.First:
@@ -546,8 +549,11 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 			case json_map.Filter:
 				// Using the filterRunner function we can run the filter on the elements of the array
 				filterExp := []byte(key.Value.(string))
-				currValue, err = filterRunner(arr, filterExp, jsonMap, false, false)
-				if err != nil {
+				var filterErr error
+				currValue, filterErr = filterRunner(arr, filterExp, jsonMap, false, false)
+				// A filter must not clear an error that occurred earlier in the path
+				if filterErr != nil {
+					err = filterErr
 					break
 				}
 			case json_map.First:
-- 
2.43.0


From 18518a47a065c2bccf3869f7ba195e2ae2cb0cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 07/39] fix: do not insert an empty key into the absolute paths
 of array elements

---
 jom/jom.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index 0405ff9..ec0b6bc 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -681,7 +681,7 @@ func (jsonMap *JsonMap) GetAbsolutePaths(absolutePaths *json_map.AbsolutePaths)
 			// We unwrap any arrays returned from the finders
 			for i, v := range value.Value.([]interface{}) {
 				// We have to amend the absolute paths for the nodes by adding on an IndexKey at each iteration
-				amendedAbsolute := make([]json_map.AbsolutePathKey, len(value.Absolute) + 1)
+				amendedAbsolute := make([]json_map.AbsolutePathKey, len(value.Absolute), len(value.Absolute) + 1)
 				copy(amendedAbsolute, value.Absolute)
 				amendedAbsolute = append(amendedAbsolute, json_map.AbsolutePathKey{
 					KeyType: json_map.IndexKey,
-- 
2.43.0


From 5d20cbb0c91758cb447de154f07adb0adf088612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 08/39] fix: do not read past the end of an array when slicing
 it

---
 jom/jom.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jom/jom.go b/jom/jom.go
index ec0b6bc..9c685b3 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -584,6 +584,12 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 				}
 				//fmt.Println("sliceIndices", sliceIndices)
 
+				// Go slices up to the capacity of the array, not up to its length
+				if sliceIndices[1] > len(arr) {
+					err = globals.JsonPathError.FillError(fmt.Sprintf("Slice: [%v:%v] (translated to %v), is out of range", slice[0], slice[1], sliceIndices))
+					break
+				}
+
 				// Wrap next bit inside anon func so we can catch any panics that occur
 				func() {
 					defer func() {
-- 
2.43.0


From e4b469ffaa111e37331ef6ec57f50b882049f792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 09/39] fix: do not set or delete every element of an array
 when a slice of it is empty

---
 jom/jom.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 9c685b3..1b2a0cb 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -766,9 +766,9 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 			// Takes an array of indices so that multiple indices can be deleted at once so that indices aren't messed
 			// up between deletions
 			setterArr := func(arrRef *[]interface{}, indices... int) {
-				// If the length of indices is 0 then we assume that the caller wants all the indices
+				// There is nothing to set or delete if there are no indices
 				if len(indices) == 0 {
-					indices = ints.Range(0, len(*arrRef) - 1, 1)
+					return
 				}
 
 				if deleteVal {
@@ -945,7 +945,7 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 					setterArr(&arr, i)
 				case json_map.Wildcard:
 					// If a wildcard then we need to iterate over array and recurse down each element
-					setterArr(&arr)
+					setterArr(&arr, ints.Range(0, len(arr) - 1, 1)...)
 				case json_map.Filter:
 					var newSubtreeIndices interface{}
 					// Using the filterRunner function we can run the filter on the elements of the array
@@ -986,7 +986,7 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 					}
 					//fmt.Println("sliceIndices", sliceIndices)
 
-					if sliceIndices[0] < 0 || sliceIndices[1] > len(arr) {
+					if sliceIndices[0] < 0 || sliceIndices[1] > len(arr) || sliceIndices[0] > sliceIndices[1] {
 						panic(recursionError{fmt.Sprintf("Slice: [%v:%v] (translated to %v), is out of range", slice[0], slice[1], sliceIndices)})
 					}
 
-- 
2.43.0


From 7395798e0cab68e1ab7fd6755da6bd96da41622b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 10/39] fix: look up the keys of the starting node itself in
 recursive lookups

---
 jom/jom.go | 42 ++++++------------------------------------
 1 file changed, 6 insertions(+), 36 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 1b2a0cb..9981248 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -400,22 +400,9 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 			return
 		}
 
-		// Start the sub-finders for each sub-tree of depth one
-		// We do a type switch here to work out whether we are iterating over a map or on array
-		switch arrOrMap.(type) {
-		case map[string]interface{}:
-			m := arrOrMap.(map[string]interface{})
-			subWg.Add(len(m))
-			for _, value := range m {
-				go subFinder(value, &subWg, toFind, inFound)
-			}
-		case []interface{}:
-			arr := arrOrMap.([]interface{})
-			subWg.Add(len(arr))
-			for _, value := range arr {
-				go subFinder(value, &subWg, toFind, inFound)
-			}
-		}
+		// Start the sub-finder at the current node itself so that its own keys are looked up as well
+		subWg.Add(1)
+		go subFinder(arrOrMap, &subWg, toFind, inFound)
 
 		// Wait for all Finders and then close the input channel
 		subWg.Wait()
@@ -783,7 +770,7 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 			}
 
 			// Temp helper function for recursive lookups
-			recursiveLookup := func(key json_map.AbsolutePathKey, arrOrMap interface{}) (newTree interface{}) {
+			recursiveLookup := func(key json_map.AbsolutePathKey, arrOrMap interface{}) interface{} {
 				// Extract the key to find from the AbsolutePathKey
 				toFind := key.Value.(string)
 
@@ -831,25 +818,8 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 					return newSubtree
 				}
 
-				// RECURSE DOWN EACH SUBTREE IN THE MAP/ARRAY
-				// We do a type switch here to work out whether we are iterating over a map or on array
-				switch arrOrMap.(type) {
-				case map[string]interface{}:
-					m := arrOrMap.(map[string]interface{})
-					mCopy := maps.CopyMap(m)
-					for k, v := range m {
-						mCopy[k] = subFinder(v, toFind)
-					}
-					newTree = mCopy
-				case []interface{}:
-					arr := arrOrMap.([]interface{})
-					arrCopy := make([]interface{}, len(arr))
-					for i, v := range arr {
-						arrCopy[i] = subFinder(v, toFind)
-					}
-					newTree = arrCopy
-				}
-				return newTree
+				// RECURSE DOWN FROM THE MAP/ARRAY ITSELF so that its own keys are looked up as well
+				return subFinder(arrOrMap, toFind)
 			}
 
 			// StartEnd KeyTypes must be within a Slice key type so throw an error if so
-- 
2.43.0


From 21be8955fedcf433e2ad40829e47f99f4e5e3719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 11/39] fix: search the found values themselves too when
 setting through a recursive lookup

---
 jom/jom.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 9981248..4da9aa5 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -786,6 +786,8 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 						// Recurse into all the other keys within the map and set the new subtrees returned in the
 						// clone of the current subtree (newSubtreeM)
 						for subSubKey, subSubtree := range subM {
+							// We always continue our search for the toFind key, as the getter does
+							newSubtreeM[subSubKey] = subFinder(subSubtree, toFind)
 							// If the current key is equal to the toFind key we continue the recursiveTraversal
 							// subroutine from here
 							if subSubKey == toFind {
@@ -793,9 +795,6 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 								// This is so that if we still have path remaining we will continue the search at this subtree
 								setterMap(&newSubtreeM, toFind)
 								//fmt.Println("found:", toFind, "within:", subM, "updated subtree to:", newSubtreeM)
-							} else {
-								// Otherwise we continue our search for the toFind key
-								newSubtreeM[subSubKey] = subFinder(subSubtree, toFind)
 							}
 						}
 						// Set the new subtree return value
-- 
2.43.0


From e9cd2ced4e4f2fa5a32318cd0ce2d788f395297b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 12/39] fix: give each place denoted by a JSON path its own
 copy of the value that is set

---
 jom/jom.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index 4da9aa5..43d48b0 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -79,6 +79,26 @@ func NewFromMap(jsonMap map[string]interface{}) *JsonMap {
 	}
 }
 
+// Makes a deep copy of the given JSON value.
+func copyValue(value interface{}) interface{} {
+	switch value.(type) {
+	case map[string]interface{}:
+		m := make(map[string]interface{})
+		for k, v := range value.(map[string]interface{}) {
+			m[k] = copyValue(v)
+		}
+		return m
+	case []interface{}:
+		arr := make([]interface{}, len(value.([]interface{})))
+		for i, v := range value.([]interface{}) {
+			arr[i] = copyValue(v)
+		}
+		return arr
+	default:
+		return value
+	}
+}
+
 // Return a clone of the JsonMap. If clear is given then New will be called but "Array" field will be inherited.
 //
 // Note: This is primarily used when using json_map.JsonMapInt to return a new JsonMap to avoid cyclic imports.
@@ -738,7 +758,8 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 					}
 					return newValue
 				}
-				return value
+				// Every place gets its own copy of the value so that they stay independent of each other
+				return copyValue(value)
 			}
 
 			// Specific setters for maps and arrays. Takes a reference to a map/array and modifies in place
-- 
2.43.0


From 334957981a63dcb0f949adae45488b609e921b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 13/39] fix: make a clone independent of the JsonMap it was
 cloned from and keep its kind of root

---
 jom/jom.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 43d48b0..9fed37e 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -104,10 +104,10 @@ func copyValue(value interface{}) interface{} {
 // Note: This is primarily used when using json_map.JsonMapInt to return a new JsonMap to avoid cyclic imports.
 func (jsonMap *JsonMap) Clone(clear bool) json_map.JsonMapInt {
 	if !clear {
-		return &JsonMap{
-			insides:   jsonMap.insides,
-			traversal: jsonMap.traversal,
-		}
+		clone := NewFromMap(copyValue(jsonMap.insides).(map[string]interface{}))
+		clone.Array = jsonMap.Array
+		_, _ = clone.traversal.scopePath.WriteString(jsonMap.GetCurrentScopePath())
+		return clone
 	}
 	cleared := New()
 	// The cleared Array still inherits the Array field from the Cloned Array
-- 
2.43.0


From 6a9c855f52b8644f8f022f3d609ae873b19cfd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 14/39] fix: forget the script fields found by an earlier run
 or strip

---
 jom/jom.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jom/jom.go b/jom/jom.go
index 9fed37e..85dae4d 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1175,6 +1175,10 @@ func (jsonMap *JsonMap) FindScriptFields() (found bool) {
 	// join a scriptFields subtree to its parent tree.
 	found = false
 
+	// Forget the fields which were found before, as they might not exist anymore
+	jsonMap.traversal.script = make(map[string]interface{})
+	jsonMap.traversal.nonScript = make(map[string]interface{})
+
 	for key, element := range *(jsonMap.GetInsides()) {
 		switch element.(type) {
 		case map[string]interface{}:
-- 
2.43.0


From e922dbd0321e9b794cc8a3603f7eb82cfbd1b4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 15/39] fix: replace the whole of a JsonMap, and report errors,
 when unmarshalling into it again

---
 jom/jom.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 85dae4d..2f42e72 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1356,18 +1356,18 @@ func (jsonMap *JsonMap) Unmarshal(jsonBytes []byte) (err error) {
 	if err = hjson.Unmarshal(jsonBytes, &jsonMap.insides); err != nil {
 		// FIXME Find a better way of handling JSON with an array at their root
 		if strings.Contains(err.Error(), "value of type []interface {} is not assignable to type map[string]interface {}") {
-			jsonMap.Array = true
 			// Create an "array" key within jsonMap.insides that will contain the unmarshalled array
 			// When Marshalling into JSON check if this hack was used and deal with it accordingly
 			var rootArray []interface{}
 			if err = hjson.Unmarshal(jsonBytes, &rootArray); err == nil {
-				jsonMap.insides["array"] = rootArray
+				// Nothing of what was unmarshalled before must be left over
+				jsonMap.Array = true
+				jsonMap.insides = map[string]interface{}{"array": rootArray}
 			}
 		}
-		if !jsonMap.Array {
-			return err
-		}
+		return err
 	}
+	jsonMap.Array = false
 	return nil
 }
 
-- 
2.43.0


From 877f49b7e5c0965433041d378b324778ffd14d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 16/39] fix: report the scripts within arrays as found so that
 they are stripped

---
 jom/jom.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jom/jom.go b/jom/jom.go
index 2f42e72..c476ce3 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1221,6 +1221,7 @@ func (jsonMap *JsonMap) FindScriptFields() (found bool) {
 
 			// If any scripts were found in the scope of the array then assign the array to the current key
 			if foundInner {
+				found = true
 				jsonMap.traversal.script[key] = scriptArrayInner
 			}
 			// Always join nonScriptArrayInner back into the main tree (nonScriptFields)
-- 
2.43.0


From adba7e142a8951fdd2f5380a0e5b984d318da437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 17/39] fix: run and strip the scripts which are within nested
 arrays

---
 jom/jom.go | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index c476ce3..1cb07f5 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1212,6 +1212,14 @@ func (jsonMap *JsonMap) FindScriptFields() (found bool) {
 					}
 					// Always join nonScriptFieldsInner back into main array (nonScriptArrayInner)
 					nonScriptArrayInner[i] = innerMap.traversal.nonScript
+				case []interface{}:
+					// Recurse over all nested arrays
+					innerMap := NewFromMap(map[string]interface{}{"array": inner})
+					if innerMap.FindScriptFields() {
+						foundInner = true
+						scriptArrayInner[i] = innerMap.traversal.script["array"]
+					}
+					nonScriptArrayInner[i] = innerMap.traversal.nonScript["array"]
 				default:
 					// Fill current element with nil in the scriptArray to indicate that there is no script here
 					scriptArrayInner[i] = nil
@@ -1256,6 +1264,24 @@ func (jsonMap *JsonMap) Strip() {
 	}
 }
 
+// Executes all the scripts of the objects within an array, and within its nested arrays. Will update the array in place.
+func runArray(elementArray []interface{}, scopePath string) {
+	// Iterate over array and recurse on all objects that may be inside the array
+	for i, inner := range elementArray {
+		switch inner.(type) {
+		case map[string]interface{}:
+			jsonInnerInnerMap := NewFromMap(inner.(map[string]interface{}))
+			// Remember to update the scope path of the new JsonMap
+			_, _ = fmt.Fprintf(jsonInnerInnerMap.traversal.scopePath, "%s.[%d]", scopePath, i)
+			jsonInnerInnerMap.Run()
+			// Join the subtree back into the array
+			elementArray[i] = jsonInnerInnerMap.insides
+		case []interface{}:
+			runArray(inner.([]interface{}), fmt.Sprintf("%s.[%d]", scopePath, i))
+		}
+	}
+}
+
 // Given a JsonMap this will traverse it and execute all scripts. Will update the given JsonMap in place.
 //
 // • All scripts will be run and removed from the JsonMap.
@@ -1333,18 +1359,7 @@ func (jsonMap *JsonMap) Run() {
 			jsonMap.insides[key] = jsonInnerMap.insides
 		case []interface{}:
 			elementArray := element.([]interface{})
-			// Iterate over array and recurse on all objects that may be inside the array
-			for i, inner := range elementArray {
-				switch inner.(type) {
-				case map[string]interface{}:
-					jsonInnerInnerMap := NewFromMap(inner.(map[string]interface{}))
-					// Remember to update the scope path of the new JsonMap
-					_, _ = fmt.Fprintf(jsonInnerInnerMap.traversal.scopePath, "%s.%s.[%d]", jsonMap.traversal.scopePath.String(), key, i)
-					jsonInnerInnerMap.Run()
-					// Join the subtree back into the array
-					elementArray[i] = jsonInnerInnerMap.insides
-				}
-			}
+			runArray(elementArray, fmt.Sprintf("%s.%s", jsonMap.traversal.scopePath.String(), key))
 			// Join array back into the main tree
 			jsonMap.insides[key] = elementArray
 		}
-- 
2.43.0


From 7b7baa84d2dc20de73d8e1c0f1949d7eb6b8571a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 18/39] fix: give each evaluation of a filter its own halting
 timer and stop it afterwards

---
 jom/jom.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 1cb07f5..4fc78d6 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -307,15 +307,16 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 				}
 			}()
 
-			vm.Interrupt = make(chan func(), 1)
+			interrupt := make(chan func(), 1)
+			vm.Interrupt = interrupt
 
-			// Start the timer
-			go func() {
-				time.Sleep(1 * globals.HaltingDelayUnits)
-				vm.Interrupt <- func() {
+			// Start the timer. It only ever interrupts the evaluation for the current node.
+			timer := time.AfterFunc(1 * globals.HaltingDelayUnits, func() {
+				interrupt <- func() {
 					panic(globals.HaltingProblem)
 				}
-			}()
+			})
+			defer timer.Stop()
 			// NOTE: how we wrap the expression in !!() this is to try to convert to boolean
 			currentExpression = fmt.Sprintf("!!(%s)", currentExpression)
 			expressionReturn, err = vm.Run(currentExpression)
-- 
2.43.0


From bd1bcc67fe5c4cef35470bc8bf3a1811d36cee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 19/39] fix: do not leak a goroutine for each Go callback that
 is run

---
 code/go/go.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/go/go.go b/code/go/go.go
index e085457..bb6a559 100644
--- a/code/go/go.go
+++ b/code/go/go.go
@@ -33,7 +33,8 @@ func init() {
 func RunCallback(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.JsonMapInt, err error) {
 	// Get the callback from the code object
 	callback := code.Script.(func(json json_map.JsonMapInt))
-	interrupts := make(chan func() bool)
+	// Both the callback and the timer must be able to write their interrupt, even if nobody is reading anymore
+	interrupts := make(chan func() bool, 2)
 
 	// Construct a wrapper around the callback which will write to the interrupts channel once finished
 	callbackSafe := func() {
-- 
2.43.0


From e7375b360131b0c244c4a5c14ca6e9110fdd8557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 20/39] fix: ignore negative indices when popping instead of
 ignoring every index after them

---
 jom/jom.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 4fc78d6..da27505 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1534,8 +1534,15 @@ func (jsonMap *JsonMap) MustPop(jsonPath string, indices... int) (popped []inter
 	popped = make([]interface{}, 0)
 	newArr := make([]interface{}, 0)
 
-	var currIdx int
-	currIdx, indices = indices[0], indices[1:]
+	// Ignore the indices which are before the start of the array
+	for len(indices) > 0 && indices[0] < 0 {
+		indices = indices[1:]
+	}
+
+	currIdx := -1
+	if len(indices) > 0 {
+		currIdx, indices = indices[0], indices[1:]
+	}
 
 	for i, node := range nodes {
 		if currIdx == i {
-- 
2.43.0


From 673c3f561bf0d66ce93405e5981c5877595fe0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 21/39] fix: keep arrays and nulls within the values which a JS
 script sets through a JSON path

---
 code/js/js.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/code/js/js.go b/code/js/js.go
index 1fae7f0..154000b 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -12,7 +12,6 @@ import (
 	"github.com/robertkrimen/otto"
 	"io"
 	"os"
-	"reflect"
 	"strings"
 	"time"
 )
@@ -300,10 +299,19 @@ func jsonPathSelector(call otto.FunctionCall) otto.Value {
 		value := call.Argument(0)
 		valueGo := toGo(value)
 
-		// Because the value returned by toGo can indeed by a pointer we need to do some suave reflect method calls to
-		// get the indirect value of the pointer if the Kind of value returned is indeed a pointer
-		if reflect.ValueOf(valueGo).Kind() == reflect.Ptr {
-			valueGo = reflect.Indirect(reflect.ValueOf(valueGo)).Interface()
+		// Objects go through JSON so that the arrays and nulls within them stay arrays and nulls
+		if value.IsObject() {
+			var valueString otto.Value
+			valueString, err = call.Otto.Call("JSON.stringify", nil, value)
+			if err != nil {
+				throw(err.Error())
+			}
+			valueGo = nil
+			if !valueString.IsUndefined() {
+				if err = json.Unmarshal([]byte(valueString.String()), &valueGo); err != nil {
+					throw(err.Error())
+				}
+			}
 		}
 
 		// Then we call SetAbsolutePaths
-- 
2.43.0


From 3fa6c929a6ca3dfedbdeae2fbe99fa03d7776955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 22/39] fix: do not share the scope of a running JS script with
 other JS scripts running concurrently

---
 code/js/js.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/code/js/js.go b/code/js/js.go
index 154000b..8446c76 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -27,8 +27,6 @@ var (
 	ExternalConsoleLogStderr io.Writer = os.Stderr
 )
 
-var toBeCloned json_map.JsonMapInt
-
 // Used to map a JS Object from Otto into a map so that it can be used.
 func traverseObject(object *otto.Object) *map[string]interface{} {
 	objectMap := make(map[string]interface{})
@@ -148,7 +146,9 @@ func composePrint(call otto.FunctionCall) *strings.Builder {
 // • json_map.AbsolutePaths will be converted into JS values.
 //
 // • The returned object will be constructed (_absolutePaths, getValues, setValues).
-func jsonPathSelector(call otto.FunctionCall) otto.Value {
+//
+// toBeCloned is the JsonMap of the scope which the calling script was run in.
+func jsonPathSelector(call otto.FunctionCall, toBeCloned json_map.JsonMapInt) otto.Value {
 	var err error
 	vm := call.Otto
 
@@ -372,7 +372,9 @@ var builtinVars = []struct{
 		}
 		jom := map[string]interface{} {
 			"trail": trail,
-			"jsonPathSelector": jsonPathSelector,
+			"jsonPathSelector": func(call otto.FunctionCall) otto.Value {
+				return jsonPathSelector(call, jsonMap)
+			},
 			"scopePath": jsonMap.GetCurrentScopePath(),
 		}
 		if val, err := runtime.ToValue(jom); err != nil {
@@ -472,7 +474,6 @@ func deJomIfy(jsonMap json_map.JsonMapInt, env *otto.Otto) (data json_map.JsonMa
 //
 // • The new json_map.JsonMapInt is returned.
 func RunScript(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.JsonMapInt, err error) {
-	toBeCloned = jsonMap
 	script := code.Script.(string)
 	// Create the VM and register all builtins
 	vm := otto.New()
-- 
2.43.0


From 921f695d5c26729ab079570894c8f31f943079aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 23/39] fix: report infinite recursion in scripts and filters
 as an error instead of crashing

---
 code/js/js.go    | 2 ++
 globals/const.go | 1 +
 jom/jom.go       | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/code/js/js.go b/code/js/js.go
index 8446c76..f6f9518 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -477,6 +477,8 @@ func RunScript(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.JsonM
 	script := code.Script.(string)
 	// Create the VM and register all builtins
 	vm := otto.New()
+	// Infinite recursion has to cause an error, as overflowing the Go stack cannot be recovered from
+	vm.SetStackDepthLimit(globals.MaxStackDepth)
 	// Register all builtins
 	for _, builtin := range builtinFuncs {
 		if err := vm.Set(builtin.name, builtin.function); err != nil {
diff --git a/globals/const.go b/globals/const.go
index 560baa9..4602a23 100644
--- a/globals/const.go
+++ b/globals/const.go
@@ -16,6 +16,7 @@ const (
 	CurrentNodeLiteralVarName     = "__currentNodeLiteral__"
 	CurrentNodeValueVarName       = "__currentNode__"
 	ModifiedTrailValueVarName     = "__modifiedTrail__"
+	MaxStackDepth                 = 10000
 )
 
 // These are global variables that can be changed.
diff --git a/jom/jom.go b/jom/jom.go
index da27505..785e51e 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -252,6 +252,8 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 		}
 	}
 	vm := otto.New()
+	// Infinite recursion has to cause an error, as overflowing the Go stack cannot be recovered from
+	vm.SetStackDepthLimit(globals.MaxStackDepth)
 
 	// Setup up an anonymous function which will make up our for loop body which iterates over our obj
 	loopBody := func(nodeIdx interface{}, node interface{}) (err error) {
-- 
2.43.0


From 8df7b98334b2a7161d44ad5d40a696f7339acb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 24/39] fix: return the nodes denoted by a JSON path in the
 same order each time

---
 jom/jom.go | 58 +++++++++++++++++++++++++++++++-----------------------
 1 file changed, 33 insertions(+), 25 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 785e51e..0b6d96a 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -128,6 +128,16 @@ func (jsonMap *JsonMap) GetInsides() *map[string]interface{} {
 	return &jsonMap.insides
 }
 
+// Returns the keys of the given map in lexicographical order.
+func sortedKeys(m map[string]interface{}) []string {
+	keys := make([]string, 0, len(m))
+	for k := range m {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 // Evaluates the given JSON path filter expression on the given obj on the given json map. Returns a list of values of
 // all nodes which are satisfied by the given filter expression. Filter expressions are evaluated using the otto JS
 // interpreter so (pretty much) any valid javascript can be written within them as long as they return a boolean value.
@@ -350,8 +360,8 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 	// Start our for loop depending on whether our obj is a map[string]interface{} or a []interface{}
 	//fmt.Println("\nRunning filter: \"", string(filterExp), "\" on", obj)
 	if mapType {
-		for k, node := range obj.(map[string]interface{}) {
-			err = loopBody(k, node)
+		for _, k := range sortedKeys(obj.(map[string]interface{})) {
+			err = loopBody(k, obj.(map[string]interface{})[k])
 			if err != nil {
 				break
 			}
@@ -374,8 +384,8 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 
 // Run by GetAbsolutePaths in parallel for each absolute path in an json_map.AbsolutePaths array to find the requested values.
 //
-// Each found value is pushed to valChan and each error is pushed to errChan. Once it has complete it calls Done on the wait group.
-func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{}, errChan chan<- error, valChan chan<- json_map.JsonPathNode, wg *sync.WaitGroup) {
+// The found value is written to foundVal or, if there was one, the error is written to foundErr. Once it has complete it calls Done on the wait group.
+func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{}, foundErr *error, foundVal *json_map.JsonPathNode, wg *sync.WaitGroup) {
 	defer wg.Done()
 	var currValue interface{} = jsonMap
 	var err error = nil
@@ -401,7 +411,8 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 			switch subtree.(type) {
 			case map[string]interface{}:
 				subM := subtree.(map[string]interface{})
-				for subSubKey, subSubtree := range subM {
+				for _, subSubKey := range sortedKeys(subM) {
+					subSubtree := subM[subSubKey]
 					// Recurse into all the keys within the map checking if the key of the current subtree is equal to
 					// the key we are meant to be finding
 					if subSubKey == toFind {
@@ -642,11 +653,11 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 	}
 
 	if err != nil {
-		// Push the error to the error channel if one has occurred
-		errChan <- err
+		// Write the error if one has occurred
+		*foundErr = err
 	} else {
-		// Push the value into the value channel
-		valChan <- json_map.JsonPathNode{
+		// Write the value
+		*foundVal = json_map.JsonPathNode{
 			Absolute: path,
 			Value:    currValue,
 		}
@@ -662,35 +673,32 @@ func (jsonMap *JsonMap) GetAbsolutePaths(absolutePaths *json_map.AbsolutePaths)
 	// Create a wait group which all Finders will be added to
 	var wg sync.WaitGroup
 
-	// Both the channels can be buffered to be the length of the array of absolute paths to be evaluated
-	// Create a channel of errors which records all the errors that happen within the Finders
-	errsChan := make(chan error, len(*absolutePaths))
-	// Also create a channel for the return values found by the Finders
-	valuesChan := make(chan json_map.JsonPathNode, len(*absolutePaths))
+	// Each Finder has its own place for its error and its found value so that they stay in the order of the paths
+	foundErrs := make([]error, len(*absolutePaths))
+	foundValues := make([]json_map.JsonPathNode, len(*absolutePaths))
 
 	// Start the finders
 	wg.Add(len(*absolutePaths))
-	for _, absolutePath := range *absolutePaths {
-		go pathFinder(absolutePath, jsonMap.insides, errsChan, valuesChan, &wg)
+	for i, absolutePath := range *absolutePaths {
+		go pathFinder(absolutePath, jsonMap.insides, &foundErrs[i], &foundValues[i], &wg)
 	}
 
-	// Wait for all Finders and then close the errors channel
+	// Wait for all Finders
 	wg.Wait()
-	close(errsChan)
-	close(valuesChan)
 
-	if len(errsChan) > 0 {
-		errs = make([]error, 0)
-		// Consume all the errors in the channel and append them to the error return array
-		for err := range errsChan {
+	// Append all the errors which have occurred to the error return array
+	for _, err := range foundErrs {
+		if err != nil {
 			errs = append(errs, err)
 		}
+	}
+	if errs != nil {
 		return values, errs
 	}
 
-	// Fill out the values array by consuming from the values channel
+	// Fill out the values array from the found values
 	values = make([]*json_map.JsonPathNode, 0)
-	for value := range valuesChan {
+	for _, value := range foundValues {
 		//fmt.Println("Appending", value)
 		switch value.Value.(type) {
 		case []interface{}:
-- 
2.43.0


From c7c15fce194202a6eeb4e54899e9750a80ceb595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 25/39] fix: output the results for the given files in the
 order that they were given

---
 json-dom.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/json-dom.go b/json-dom.go
index fb6d6d3..fba28bb 100644
--- a/json-dom.go
+++ b/json-dom.go
@@ -176,6 +176,8 @@ func main() {
 			inputPtr := element["input"].(*string)
 
 			dataSet := make(map[string][]byte, 0)
+			// The names of the data in the order that they were given
+			dataNames := make([]string, 0)
 			if len(*filesPtr) != 0 || *inputPtr != "" {
 				// If both a file and a stdin input is given then evaluate the files first
 				var data []byte
@@ -208,11 +210,13 @@ func main() {
 							globals.ReadFileErr.Handle(err)
 						}
 						dataSet[file] = data
+						dataNames = append(dataNames, file)
 					}
 				} else {
 					// Convert the input to a byte buffer
 					data = []byte(*inputPtr)
 					dataSet["stdin"] = data
+					dataNames = append(dataNames, "stdin")
 				}
 			} else {
 				// Files and input not given so throw RequiredFlagErr
@@ -220,7 +224,8 @@ func main() {
 					element["flagSet"].(*flag.FlagSet))
 			}
 
-			for dataName, data := range dataSet {
+			for _, dataName := range dataNames {
+				data := dataSet[dataName]
 				if verbose {
 					fmt.Printf("\n%s:\n", dataName)
 				}
-- 
2.43.0


From a5b4fc3380f5ecfcecb941b2fdcbf7652502255c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 26/39] fix: end a string literal within a filter expression
 only at the kind of quote it starts with

---
 jom/jom.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index 0b6d96a..d64395d 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -146,7 +146,7 @@ func sortedKeys(m map[string]interface{}) []string {
 func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interface{}, mapType bool, returnIndices bool) (truers interface{}, err error) {
 	// For Filters we first have to replace all all @ chars with the current node that has been Marshalled
 	// into JSON then JSON.parse-d. And we have to also replace all the JSON paths with calculated literals
-	stringLiterals := regexp.MustCompile("['\"]([^\\\\\"']|\\\\.)*['\"]")
+	stringLiterals := regexp.MustCompile("\"([^\\\\\"]|\\\\.)*\"|'([^\\\\']|\\\\.)*'")
 	jsonPathRegex := regexp.MustCompile("\\$[.\\[][^'\"\\n\\r\\s]+")
 
 	// Get the locations of the start and end of all string literals
-- 
2.43.0


From 6bf149870debff18d8c9daa0366633cf37af4d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 27/39] fix: keep non-ASCII characters in filter expressions
 which refer to other JSON paths

---
 jom/jom.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index d64395d..f4fe3f4 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -223,7 +223,14 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 	// Replace all the occurrences of any JSON path expression within the filter expression with the
 	// literal evaluation of each JSON path calculated above
 	if len(jsonPathIndices) > 0 {
-		filterExp = []byte(str.ReplaceCharIndexRange(string(filterExp), jsonPathIndices, jsonPathLiterals...))
+		// NOTE this works on bytes so that non-ASCII characters in the expression stay intact
+		replaced := make([]byte, 0)
+		last := 0
+		for i, jsonPathLoc := range jsonPathIndices {
+			replaced = append(append(replaced, filterExp[last:jsonPathLoc[0]]...), jsonPathLiterals[i]...)
+			last = jsonPathLoc[1]
+		}
+		filterExp = append(replaced, filterExp[last:]...)
 		// All string literal locations also have to be recalculated as there were changes made to the
 		// filter expression
 		stringLiteralLocs = stringLiterals.FindAllIndex(filterExp, -1)
-- 
2.43.0


From 12461364f038648331f9dbde17835088caeb9665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 28/39] fix: report an unsupported script language as an error
 when stripping in the CLI

---
 json-dom.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/json-dom.go b/json-dom.go
index fba28bb..03a682a 100644
--- a/json-dom.go
+++ b/json-dom.go
@@ -264,7 +264,15 @@ func main() {
 
 					// Strip script key-value pairs if strip flag is set
 					if *strip {
-						jsonMap.Strip()
+						func() {
+							// Catch any panics that might happen when looking for scripts
+							defer func() {
+								if p := recover(); p != nil {
+									globals.MarkupErr.Handle(fmt.Errorf("%v", p))
+								}
+							}()
+							jsonMap.Strip()
+						}()
 					}
 
 					// Run the Markup for all paths
-- 
2.43.0


From 9c8a939c0868135ab284f020d384ba354ad95031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 29/39] fix: do not let the nodes which are pushed or popped
 change while they are being set at several places

---
 jom/jom.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index f4fe3f4..698f057 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -746,6 +746,9 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 		Message string
 	}
 
+	// The value might be made up of nodes of the JsonMap itself, which change while it is being set
+	value = copyValue(value)
+
 	// Set up the recursive function which will be run on all absolute paths
 	var recursiveTraversal func(remainingPath []json_map.AbsolutePathKey, currTree interface{}) interface{}
 	recursiveTraversal = func(remainingPath []json_map.AbsolutePathKey, currTree interface{}) interface{} {
@@ -1563,7 +1566,7 @@ func (jsonMap *JsonMap) MustPop(jsonPath string, indices... int) (popped []inter
 
 	for i, node := range nodes {
 		if currIdx == i {
-			popped = append(popped, node)
+			popped = append(popped, copyValue(node))
 			if len(indices) > 0 {
 				currIdx, indices = indices[0], indices[1:]
 			}
-- 
2.43.0


From 0ac690b5b0006ea6e9b3298b6583afd1d7d45b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:33 +0000
Subject: [PATCH 30/39] fix: do not panic when stringifying a JsonMap with a
 null or missing array at its root

---
 jom/jom.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jom/jom.go b/jom/jom.go
index 698f057..7c22510 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1586,6 +1586,9 @@ func (jsonMap *JsonMap) String() string {
 	var out []byte
 	if !jsonMap.Array {
 		out, err = hjson.Marshal(jsonMap.insides)
+	} else if jsonMap.insides["array"] == nil {
+		// hjson.Marshal cannot marshal a lone null
+		out = []byte("null")
 	} else {
 		// FIXME: Handle the root array hack
 		out, err = hjson.Marshal(jsonMap.insides["array"])
-- 
2.43.0


From 88f4b3b0581ad317341205d8f20dcd086ccff940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:54 +0000
Subject: [PATCH 31/39] fix: report a Go script which is not a callback as a
 script error

---
 code/go/go.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/code/go/go.go b/code/go/go.go
index bb6a559..af9d85c 100644
--- a/code/go/go.go
+++ b/code/go/go.go
@@ -32,7 +32,14 @@ func init() {
 // Keep this in mind if you have a long running program which utilises native Go callback execution.
 func RunCallback(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.JsonMapInt, err error) {
 	// Get the callback from the code object
-	callback := code.Script.(func(json json_map.JsonMapInt))
+	callback, ok := code.Script.(func(json json_map.JsonMapInt))
+	if !ok {
+		// Go source code cannot be run, only callbacks can
+		return nil, globals.ScriptError.FillError(
+			"Go scripts can only be callbacks",
+			fmt.Sprintf(globals.ScriptErrorFormatString, jsonMap.GetCurrentScopePath(), fmt.Sprintf("%v", code.Script)),
+		)
+	}
 	// Both the callback and the timer must be able to write their interrupt, even if nobody is reading anymore
 	interrupts := make(chan func() bool, 2)
 
-- 
2.43.0


From 6caeefaaae4f0a4e8827164f33b1d04883365bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:44 +0000
Subject: [PATCH 32/39] fix: a callback that searches for scripts must not lose
 those that are still to run

---
 jom/jom.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 7c22510..f70a63d 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1330,9 +1330,10 @@ func (jsonMap *JsonMap) Run() {
 		_, _ = fmt.Fprint(jsonMap.traversal.scopePath, "$")
 	}
 
-	// Get all script keys at the current level
+	// Get all script keys at the current level (a callback might search for scripts again, so the result is kept)
+	scripts := jsonMap.traversal.script
 	scriptQueue := make(str.StringHeap, 0)
-	for k, e := range jsonMap.traversal.script {
+	for k, e := range scripts {
 		switch e.(type) {
 		case code.Code:
 			scriptQueue = append(scriptQueue, k)
@@ -1349,7 +1350,7 @@ func (jsonMap *JsonMap) Run() {
 		scriptKey := heap.Pop(&scriptQueue).(string)
 
 		// Get the script language by CheckIfScript
-		script := jsonMap.traversal.script[scriptKey].(code.Code)
+		script := scripts[scriptKey].(code.Code)
 
 		// Run the script for the script's language. This will...
 		// 1. Create the JOM object, setup any builtin functions and insert the JOM into the script environment
-- 
2.43.0


From 464e5318055c96e114e3e3a74541d4d0c614d2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:54 +0000
Subject: [PATCH 33/39] fix: keys of JSON paths which are longer than the read
 buffer are parsed

---
 jom/json_map/json_path_parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index 2177c90..efd2b71 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -314,7 +314,8 @@ func ParseJsonPath(jsonPath string) (absolutePaths AbsolutePaths, err error) {
 	absolutePaths = make(AbsolutePaths, 0)
 	previousState := &start
 	currentState := &root
-	jsonPathReader := bufio.NewReader(strings.NewReader(jsonPath))
+	// The buffer has to hold the longest token, which might be all of the JSON path
+	jsonPathReader := bufio.NewReaderSize(strings.NewReader(jsonPath), len(jsonPath))
 
 	for {
 		// Break out if at finish state
-- 
2.43.0


From 6f0f079fe249942da89b77abf7e6fb397c0e11d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:21 +0000
Subject: [PATCH 34/39] fix: objects of scripts which contain themselves must
 not overflow the stack

---
 code/js/js.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/code/js/js.go b/code/js/js.go
index f6f9518..436f78a 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -28,8 +28,12 @@ var (
 )
 
 // Used to map a JS Object from Otto into a map so that it can be used.
-func traverseObject(object *otto.Object) *map[string]interface{} {
+//
+// The objects that the given object is within are given by parents. An object that contains itself is not followed, as
+// overflowing the Go stack cannot be recovered from.
+func traverseObject(object *otto.Object, parents ...otto.Value) *map[string]interface{} {
 	objectMap := make(map[string]interface{})
+	parents = append(parents, object.Value())
 
 	for _, key := range object.Keys() {
 		val, err := object.Get(key)
@@ -56,14 +60,28 @@ func traverseObject(object *otto.Object) *map[string]interface{} {
 			realVal = boolean
 		} else if val.IsObject() {
 			obj := val.Object()
-			objectMapInner := traverseObject(obj)
-			realVal = *objectMapInner
+			if len(parents) > globals.MaxStackDepth || isWithin(val, parents) {
+				realVal = "[Circular]"
+			} else {
+				objectMapInner := traverseObject(obj, parents...)
+				realVal = *objectMapInner
+			}
 		}
 		objectMap[key] = realVal
 	}
 	return &objectMap
 }
 
+// Whether the given object is one of the given objects.
+func isWithin(value otto.Value, objects []otto.Value) bool {
+	for _, object := range objects {
+		if object == value {
+			return true
+		}
+	}
+	return false
+}
+
 func toGo(value otto.Value) (out interface{}) {
 	var err error
 	if value.IsDefined() {
-- 
2.43.0


From 69cc19cf570e11194f6c1d455ce43aa8675e2555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:43 +0000
Subject: [PATCH 35/39] fix: numbers without JSON text are null when set
 through a JSON path by a script

---
 code/js/js.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/code/js/js.go b/code/js/js.go
index 436f78a..15007f2 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -11,6 +11,7 @@ import (
 	"github.com/andygello555/json-dom/globals"
 	"github.com/robertkrimen/otto"
 	"io"
+	"math"
 	"os"
 	"strings"
 	"time"
@@ -332,6 +333,11 @@ func jsonPathSelector(call otto.FunctionCall, toBeCloned json_map.JsonMapInt) ot
 			}
 		}
 
+		// Numbers which have no JSON text are null, as they are when stringified
+		if number, ok := valueGo.(float64); ok && (math.IsNaN(number) || math.IsInf(number, 0)) {
+			valueGo = nil
+		}
+
 		// Then we call SetAbsolutePaths
 		// NOTE: This is referencing the absolute paths from outside the scope of this function but this doesn't matter
 		//       because if the user has changed the JSON structure for the worse then its kinda their fault for using
-- 
2.43.0


From 7c90dc0728f55a139a5a925215ca91743cbe6211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:44 +0000
Subject: [PATCH 36/39] fix: the paths of the markup command are marked up in
 the order given

---
 json-dom.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/json-dom.go b/json-dom.go
index 03a682a..e8dc4cd 100644
--- a/json-dom.go
+++ b/json-dom.go
@@ -34,14 +34,16 @@ func (s *Files) Set(value string) error {
 }
 
 // Flag Type for a JsonPathScriptPair flag
-type JsonPathScriptPair map[string]string
+//
+// The pairs are kept in the order that they were given in, as this is the order in which they are marked up.
+type JsonPathScriptPair []struct{ path, script string }
 
 // Returns the String representation of the JsonPathScriptPair flag
 func (jpscp *JsonPathScriptPair) String() string {
 	// a=b, c=d, ...
 	var b strings.Builder
-	for key, element := range *jpscp {
-		_, err := fmt.Fprintf(&b, "%v%c%v,", key, globals.KeyValuePairDelim, element)
+	for _, pair := range *jpscp {
+		_, err := fmt.Fprintf(&b, "%v%c%v,", pair.path, globals.KeyValuePairDelim, pair.script)
 		if err != nil {
 			globals.FormatErr.Handle(err)
 		}
@@ -59,7 +61,7 @@ func (jpscp *JsonPathScriptPair) String() string {
 // Sets the value of the Files flag
 func (jpscp *JsonPathScriptPair) Set(value string) error {
 	jsonPathScripts := strings.Split(value, ",")
-	*jpscp = make(JsonPathScriptPair)
+	*jpscp = make(JsonPathScriptPair, 0, len(jsonPathScripts))
 	for _, jsonPathScript := range jsonPathScripts {
 		jsonPathScriptArr := strings.Split(jsonPathScript, string(globals.KeyValuePairDelim))
 		// Throw an error if len is 0, aka: string is "="
@@ -76,12 +78,12 @@ func (jpscp *JsonPathScriptPair) Set(value string) error {
 			return err
 		}
 
-		if len(jsonPathScriptArr) == 1 {
-			// Use the default value of "0" if no value is specified
-			(*jpscp)[jsonPathScriptArr[0]] = "// No script specified"
-		} else {
-			(*jpscp)[jsonPathScriptArr[0]] = jsonPathScriptArr[1]
+		// Use the default script if no script is specified
+		pair := struct{ path, script string }{jsonPathScriptArr[0], "// No script specified"}
+		if len(jsonPathScriptArr) == 2 {
+			pair.script = jsonPathScriptArr[1]
 		}
+		*jpscp = append(*jpscp, pair)
 	}
 	return nil
 }
@@ -276,8 +278,8 @@ func main() {
 					}
 
 					// Run the Markup for all paths
-					for path, script := range *pathScripts {
-						err = jsonMap.MarkupCode(path, *language, script)
+					for _, pair := range *pathScripts {
+						err = jsonMap.MarkupCode(pair.path, *language, pair.script)
 						if err != nil {
 							globals.MarkupErr.Handle(err)
 						}
-- 
2.43.0


From 6b5ed2e6a37d882d33dd835401217dd62af8ec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:41 +0000
Subject: [PATCH 37/39] fix: filter expressions may be written on several lines

---
 jom/json_map/json_path_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index efd2b71..e867e68 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -50,7 +50,7 @@ var (
 		name:       "Filter Expression ([?(...)])",
 		// We allow anything to be written as a filter expression as it will be passed to otto which will parse the
 		// expression and throw up an error if it's incorrect
-		tokenRegex: regexp.MustCompile("\\[\\?\\(.*\\)]"),
+		tokenRegex: regexp.MustCompile("(?s)\\[\\?\\(.*\\)]"),
 		validator: func(token []byte, togo []byte) (absolutePathKeys []AbsolutePathKey, errs []error) {
 			// We just add the expression body to the absolute path keys
 			absolutePathKeys = []AbsolutePathKey{{
-- 
2.43.0


From c9bfb07da420e6c44cfb35d657f40dc2ae0a096b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:35 +0000
Subject: [PATCH 38/39] fix: AddToAll appends to paths that share an array
 without overwriting one another

---
 jom/json_map/absolute_paths.go.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jom/json_map/absolute_paths.go.go b/jom/json_map/absolute_paths.go.go
index 1e52092..7f1302f 100644
--- a/jom/json_map/absolute_paths.go.go
+++ b/jom/json_map/absolute_paths.go.go
@@ -96,8 +96,9 @@ func (p *AbsolutePaths) AddToAll(jsonMap JsonMapInt, check bool, pathValues ...A
 			*p = newAbsolutePaths
 		} else if len(pathValues) == 1 {
 			// Do this to save memory as no new absolute paths are created therefore no paths need to be cloned
+			// (the capacity is limited so that paths which share an array are not appended over one another)
 			for i, absolutePath := range *p {
-				(*p)[i] = append(absolutePath, pathValues[0])
+				(*p)[i] = append(absolutePath[:len(absolutePath):len(absolutePath)], pathValues[0])
 			}
 		}
 	} else {
-- 
2.43.0


From 5d0c4643a0ceb5113f91835feb654f4fb5b9f2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:13 +0000
Subject: [PATCH 39/39] fix: the values that a script gets are those of its own
 Javascript VM, and are limited as the script is

---
 code/js/js.go | 131 ++++++++++++++++++++------------------------------
 1 file changed, 51 insertions(+), 80 deletions(-)

diff --git a/code/js/js.go b/code/js/js.go
index 15007f2..e30d8d2 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -218,73 +218,42 @@ func jsonPathSelector(call otto.FunctionCall, toBeCloned json_map.JsonMapInt) ot
 		throw(err.Error())
 	}
 
-	// Set up a temporary vm which we will use to construct the NodeSet
-	vmTemp := otto.New()
-
-	// Temp function to push a value to an array stored in the given variable name.
-	// This will first marshall the value into a JSON value in Go then parse the []byte to the VM which will use
-	// JSON.parse to parse the value and then push it to the array of the given name.
-	pushValue := func(arrName string, value interface{}) {
-		var valueStr []byte
-		valueStr, err = json.Marshal(value)
-		if err != nil {
-			throw(fmt.Sprintf("cannot Marshal value: \"%v\"", value))
-		}
-		// Then push the value to the nodeSet array within the VM
-		currentName := fmt.Sprintf("%sCurrStr", arrName)
-		_ = vmTemp.Set(currentName, string(valueStr))
-		_, err = vmTemp.Run(fmt.Sprintf("%s.push(JSON.parse(%s))", arrName, currentName))
-		if err != nil {
-			throw(fmt.Sprintf("could not push current node: \"%v\", to %s", string(valueStr), arrName))
-		}
-	}
-
-	var setupKeyObject func(path json_map.AbsolutePathKey) map[string]interface{}
-	setupKeyObject = func(path json_map.AbsolutePathKey) map[string]interface{} {
-		absolutePathKeyMap := make(map[string]interface{})
-		absolutePathKeyMap["typeId"]   = path.KeyType
-		absolutePathKeyMap["typeName"] = json_map.AbsolutePathKeyTypeNames[path.KeyType]
-		switch path.KeyType {
-		case json_map.Slice:
-			// In cases of slices we have to setup a new array
-			_, _ = vmTemp.Run("sliceArray = []")
-			for _, slice := range path.Value.([]json_map.AbsolutePathKey) {
-				pushValue("sliceArray", setupKeyObject(slice))
-			}
-			absolutePathKeyMap["key"], _ = vmTemp.Get("sliceArray")
-		default:
-			absolutePathKeyMap["key"] = path.Value
-		}
-		return absolutePathKeyMap
-	}
-
 	// Create a node set map which will store the object we need to return
 	nodeSetMap := make(map[string]interface{})
 
-	_, _ = vmTemp.Run("absoluteValues = []")
-	for _, paths := range absolutePaths {
-		_, _ = vmTemp.Run("currentPath = []")
-		for _, path := range paths {
-			pathMap := setupKeyObject(path)
-			var value otto.Value
-			value, err = vmTemp.ToValue(pathMap)
-			if err != nil {
-				throw(err.Error())
+	var setupKeyObjects func(path []json_map.AbsolutePathKey) []interface{}
+	setupKeyObjects = func(path []json_map.AbsolutePathKey) []interface{} {
+		keyObjects := make([]interface{}, 0)
+		for _, key := range path {
+			keyObject := map[string]interface{}{
+				"typeId":   key.KeyType,
+				"typeName": json_map.AbsolutePathKeyTypeNames[key.KeyType],
+			}
+			switch {
+			case key.KeyType == json_map.Slice:
+				// In cases of slices we have to setup a new array
+				keyObject["key"] = setupKeyObjects(key.Value.([]json_map.AbsolutePathKey))
+			case key.Value != nil || key.KeyType == json_map.StartEnd:
+				keyObject["key"] = key.Value
 			}
-			_ = vmTemp.Set("currentKey", value)
-			// Append to array
-			_, _ = vmTemp.Run("currentPath.push(currentKey)")
+			keyObjects = append(keyObjects, keyObject)
 		}
-		// Append the current path to the absolute paths array
-		_, _ = vmTemp.Run("absoluteValues.push(currentPath)")
+		return keyObjects
+	}
+
+	absoluteValues := make([]interface{}, 0)
+	for _, path := range absolutePaths {
+		absoluteValues = append(absoluteValues, setupKeyObjects(path))
+	}
+	nodeSetMap["_absolutePaths"], err = toJs(vm, absoluteValues)
+	if err != nil {
+		throw(err.Error())
 	}
-	nodeSetMap["_absolutePaths"], _ = vmTemp.Get("absoluteValues")
 
 	// Set getter and setter funcs
 	nodeSetMap["getValues"] = func(call otto.FunctionCall) otto.Value {
 		// Get the most "up to date" json map from json.trail
 		jsonMap := getJsonMap(call.Otto)
-		_, _ = vmTemp.Run("nodeValues = []")
 		nodes := getAbsPaths(&absolutePaths, jsonMap)
 
 		// Expand the first element if we only have one element and its an array
@@ -302,10 +271,15 @@ func jsonPathSelector(call otto.FunctionCall, toBeCloned json_map.JsonMapInt) ot
 			}
 		}
 
-		for _, value := range nodes {
-			pushValue("nodeValues", value.Value)
+		values := make([]interface{}, 0)
+		for _, node := range nodes {
+			values = append(values, node.Value)
+		}
+		var nodeValues otto.Value
+		nodeValues, err = toJs(call.Otto, values)
+		if err != nil {
+			throw(fmt.Sprintf("cannot convert values: \"%v\"", values))
 		}
-		nodeValues, _ := vmTemp.Get("nodeValues")
 		return nodeValues
 	}
 
@@ -349,7 +323,7 @@ func jsonPathSelector(call otto.FunctionCall, toBeCloned json_map.JsonMapInt) ot
 
 		// Then we update the current json.trail object with the createJom function which will recreate the jom
 		var trail otto.Value
-		trail, err = createJom(jsonMap)
+		trail, err = createJom(call.Otto, jsonMap)
 		if err != nil {
 			throw("Could not JOM-ify modified JsonMap")
 		}
@@ -390,7 +364,7 @@ var builtinVars = []struct{
 	{globals.JOMVariableName, func(i ...interface{}) interface{} {
 		runtime := i[0].(*otto.Otto)
 		jsonMap := i[1].(json_map.JsonMapInt)
-		trail, err := createJom(jsonMap)
+		trail, err := createJom(runtime, jsonMap)
 		if err != nil {
 			panic(globals.BuiltinGetterError.FillError("json.trail", "Could not JOM-ify", err.Error()))
 		}
@@ -429,34 +403,31 @@ var builtinVars = []struct{
 	}},
 }
 
-// Create the JOM within a Javascript VM, assign all necessary functions and retrieve the variable from within the VM.
+// Create the JOM within the Javascript VM which will run the scripts, so that the objects and the arrays within it are the
+// Objects and the Arrays of the scripts, and what is done with them is limited as the scripts are.
 //
 // This will create a JOM for the scope of the given json map.
+// Returns an otto.Value which can be plugged into the VM. If an error occurs at any point then an otto.NullValue and the
+// error are returned.
+func createJom(vm *otto.Otto, jsonMap json_map.JsonMapInt) (run otto.Value, err error) {
+	// TODO At some point introduce some helpful functions and helpers to the JOM
+	return toJs(vm, jsonMap.GetInsides())
+}
+
+// Converts the given Go value to a value within the given VM, by parsing its JSON within the VM.
+//
 // Note: This needs to be used to correctly parse Go arrays ([]interface{}) as JS arrays and not JS objects.
-// Returns an otto.Value which can be plugged into the VM which will run the scripts. If an error occurs at any point.
-// then an otto.NullValue and the error are returned.
-func createJom(jsonMap json_map.JsonMapInt) (run otto.Value, err error) {
-	// Convert the map to json
-	var jsonDataBytes []byte
-	jsonDataBytes, err = json.Marshal(jsonMap.GetInsides())
+func toJs(vm *otto.Otto, value interface{}) (out otto.Value, err error) {
+	var jsonData []byte
+	jsonData, err = json.Marshal(value)
 	if err != nil {
 		return otto.NullValue(), err
 	}
-	jsonData := string(jsonDataBytes)
-
-	// Create a VM, parse the json string and get the value out of the VM
-	vm := otto.New()
-	if err := vm.Set("jsonString", jsonData); err != nil {
-		return otto.NullValue(), err
-	}
-	run, err = vm.Run("JSON.parse(jsonString)")
+	out, err = vm.Call("JSON.parse", nil, string(jsonData))
 	if err != nil {
 		return otto.NullValue(), err
 	}
-
-	// TODO At some point introduce some helpful functions and helpers to the JOM
-
-	return run, nil
+	return out, nil
 }
 
 // Given a JS environment, retrieve the JOM and generate the json_map.JsonMapInt for the object.
-- 
2.43.0

