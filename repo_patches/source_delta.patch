From 6734876b7d2f4f6f1987a012ee70a74802c01fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:25 +0000
Subject: [PATCH 01/18] fix: reject misnested brackets and trailing content
 instead of panicking or accepting them

---
 json/JSON.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/json/JSON.go b/json/JSON.go
index 475ee08..3fe6fbc 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -167,6 +167,11 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		rune_values := []rune(value)
 		rune_value := rune_values[0]
 
+		if parent_map != nil && len(*list) == 0 {
+			errors = append(errors, fmt.Errorf("error: content found after the end of the json at index: %d", i))
+			return nil, errors
+		}
+
 		if !parsing_string {
 			if value == "\"" && previous_value != "\\" {
 				parsing_string = true
@@ -177,6 +182,18 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 				*opention_quote++
 				metrics.SetInt("opening_quote", opention_quote)
 			} else {
+				if value == "{" || value == "[" {
+					if current_mode == mode_looking_for_keys || current_mode == mode_looking_for_key_name_column {
+						errors = append(errors, fmt.Errorf("error: unexpected %s at index: %d", value, i))
+						return nil, errors
+					}
+				} else if value == "}" || value == "]" {
+					if len(*list) == 0 || current_mode == mode_looking_for_key_name_column || ((*list)[len(*list)-1]).IsMap() != (value == "}") {
+						errors = append(errors, fmt.Errorf("error: unexpected %s at index: %d", value, i))
+						return nil, errors
+					}
+				}
+
 				if value == "{" {
 
 					opening_count, _ := metrics.GetInt("{")
@@ -439,6 +456,10 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		*index++
 	}
 
+	if len(*list) != 0 {
+		errors = append(errors, fmt.Errorf("error: json ended before all maps and arrays were closed"))
+	}
+
 	if len(errors) > 0 {
 		return nil, errors
 	}
-- 
2.43.0


From 7f55347d4f2adc2ec7379c5878afd0cfa0b73d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:27 +0000
Subject: [PATCH 02/18] fix: a lone quote token is an error instead of an out
 of range slice

---
 json/JSON.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 3fe6fbc..59a92d3 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -126,7 +126,7 @@ func Parse(s string) (*Map, []error) {
 
 func unquote_key_value(key string) (string, []error) {
 	var errors []error
-	if strings.HasPrefix(key, "\"") && strings.HasSuffix(key, "\"") {
+	if len(key) >= 2 && strings.HasPrefix(key, "\"") && strings.HasSuffix(key, "\"") {
 		key = (key)[1:(len(key) - 1)]
 	} else {
 		errors = append(errors, fmt.Errorf("error: key does not start with  \" or end with \""))
@@ -489,7 +489,7 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 	string_value = strings.Replace(string_value, "\\\"", "\"", -1)
 
 	if ((*list)[len(*list)-1]).IsMap() {
-		if strings.HasPrefix(key_value, "\"") && strings.HasSuffix(key_value, "\"") {
+		if len(key_value) >= 2 && strings.HasPrefix(key_value, "\"") && strings.HasSuffix(key_value, "\"") {
 			dequoted_value := (key_value)[1:(len(key_value) - 1)]
 			key_value = dequoted_value
 		} else {
@@ -498,7 +498,7 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 	}
 
 	if strings.Contains(string_value, "\"") {
-		if strings.HasPrefix(string_value, "\"") && strings.HasSuffix(string_value, "\"") {
+		if len(string_value) >= 2 && strings.HasPrefix(string_value, "\"") && strings.HasSuffix(string_value, "\"") {
 			data_type = "string"
 			dequoted_value := (string_value)[1:(len(string_value) - 1)]
 			string_value = dequoted_value
-- 
2.43.0


From b7173e59cdba60d487a17837520ced42c815c363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:29 +0000
Subject: [PATCH 03/18] fix: keep the bytes of non-ASCII text when parsing

---
 json/JSON.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 59a92d3..fc58938 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -161,9 +161,9 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		i := *index
 		previous_value := ""
 		if *index > 0 {
-			previous_value = string(json_string[i-1])
+			previous_value = json_string[i-1 : i]
 		}
-		value := string(json_string[i])
+		value := json_string[i : i+1]
 		rune_values := []rune(value)
 		rune_value := rune_values[0]
 
-- 
2.43.0


From 4812279571d63e8d5e898bee31bae3804c929d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:28 +0000
Subject: [PATCH 04/18] fix: decode the escapes of strings and keys when
 parsing and end a string only at an unescaped quote

---
 json/JSON.go | 134 +++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 120 insertions(+), 14 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index fc58938..1267052 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -136,7 +136,117 @@ func unquote_key_value(key string) (string, []error) {
 		return "", errors
 	}
 
-	return key, nil
+	return unescapeString(key), nil
+}
+
+// escapeString returns the text of value as it is written between the quotes of a json string
+func escapeString(value string) string {
+	var result strings.Builder
+	for i := 0; i < len(value); i++ {
+		c := value[i]
+		switch {
+		case c == '"' || c == '\\':
+			result.WriteByte('\\')
+			result.WriteByte(c)
+		case c == '\n':
+			result.WriteString("\\n")
+		case c == '\r':
+			result.WriteString("\\r")
+		case c == '\t':
+			result.WriteString("\\t")
+		case c == '\b':
+			result.WriteString("\\b")
+		case c == '\f':
+			result.WriteString("\\f")
+		case c < 0x20:
+			result.WriteString("\\u00")
+			result.WriteByte(hexDigits[c>>4])
+			result.WriteByte(hexDigits[c&15])
+		default:
+			result.WriteByte(c)
+		}
+	}
+	return result.String()
+}
+
+// unescapeString decodes the escapes in the text between the quotes of a json string, escapes json does not define are kept as they are
+func unescapeString(value string) string {
+	var result strings.Builder
+	for i := 0; i < len(value); {
+		c := value[i]
+		if c != '\\' || i+1 >= len(value) {
+			result.WriteByte(c)
+			i++
+			continue
+		}
+
+		switch value[i+1] {
+		case '"', '\\', '/':
+			result.WriteByte(value[i+1])
+			i += 2
+		case 'n':
+			result.WriteByte('\n')
+			i += 2
+		case 'r':
+			result.WriteByte('\r')
+			i += 2
+		case 't':
+			result.WriteByte('\t')
+			i += 2
+		case 'b':
+			result.WriteByte('\b')
+			i += 2
+		case 'f':
+			result.WriteByte('\f')
+			i += 2
+		case 'u':
+			code, ok := hexCode(value, i+2)
+			if !ok {
+				result.WriteString("\\u")
+				i += 2
+				continue
+			}
+
+			i += 6
+			if code >= 0xD800 && code < 0xDC00 && i+1 < len(value) && value[i] == '\\' && value[i+1] == 'u' {
+				low, low_ok := hexCode(value, i+2)
+				if low_ok && low >= 0xDC00 && low < 0xE000 {
+					code = 0x10000 + (code-0xD800)*0x400 + (low - 0xDC00)
+					i += 6
+				}
+			}
+			result.WriteRune(code)
+		default:
+			result.WriteByte(c)
+			i++
+		}
+	}
+	return result.String()
+}
+
+const hexDigits = "0123456789abcdef"
+
+// hexCode returns the number written as four hex digits at start, false if there are none
+func hexCode(value string, start int) (rune, bool) {
+	if start+4 > len(value) {
+		return 0, false
+	}
+
+	var code rune
+	for i := start; i < start+4; i++ {
+		c := value[i]
+		switch {
+		case c >= '0' && c <= '9':
+			code = code*16 + rune(c-'0')
+		case c >= 'a' && c <= 'f':
+			code = code*16 + rune(c-'a') + 10
+		case c >= 'A' && c <= 'F':
+			code = code*16 + rune(c-'A') + 10
+		default:
+			return 0, false
+		}
+	}
+	return code, true
 }
 
 func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map) (*Map, []error) {
@@ -153,17 +263,16 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 	var temp_key_r string
 	var temp_value_r string
 	parsing_string := false
+	next_is_escaped := false
 	temp_mode := cloneString(mode)
 	current_mode := *temp_mode
 	var parent_map *Map = nil
 
 	for *index < uint64(len(json_string)) {
 		i := *index
-		previous_value := ""
-		if *index > 0 {
-			previous_value = json_string[i-1 : i]
-		}
 		value := json_string[i : i+1]
+		is_escaped := next_is_escaped
+		next_is_escaped = parsing_string && !is_escaped && value == "\\"
 		rune_values := []rune(value)
 		rune_value := rune_values[0]
 
@@ -173,7 +282,7 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		}
 
 		if !parsing_string {
-			if value == "\"" && previous_value != "\\" {
+			if value == "\"" && !is_escaped {
 				parsing_string = true
 				opention_quote, opention_quote_errors := metrics.GetInt("opening_quote")
 				if opention_quote_errors != nil {
@@ -223,7 +332,7 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 				}
 			}
 		} else {
-			if value == "\"" && previous_value != "\\" {
+			if value == "\"" && !is_escaped {
 				parsing_string = false
 				closing_quote, closing_quote_errors := metrics.GetInt("closing_quote")
 				if closing_quote_errors != nil {
@@ -285,7 +394,7 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 						current_mode = mode_looking_for_next_value_or_end
 					}
 				}
-			} else if value == "\"" && previous_value != "\\" {
+			} else if value == "\"" && !is_escaped {
 				current_mode = mode_looking_for_key_name
 				temp_key_r += value
 			}
@@ -294,7 +403,7 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		}
 
 		if current_mode == mode_looking_for_key_name {
-			if value == "\"" && previous_value != "\\" {
+			if value == "\"" && !is_escaped {
 				current_mode = mode_looking_for_key_name_column
 			}
 			temp_key_r += value
@@ -485,13 +594,10 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 	key_value = strings.TrimSpace(key_value)
 	string_value = strings.TrimSpace(string_value)
 
-	key_value = strings.Replace(key_value, "\\\"", "\"", -1)
-	string_value = strings.Replace(string_value, "\\\"", "\"", -1)
-
 	if ((*list)[len(*list)-1]).IsMap() {
 		if len(key_value) >= 2 && strings.HasPrefix(key_value, "\"") && strings.HasSuffix(key_value, "\"") {
 			dequoted_value := (key_value)[1:(len(key_value) - 1)]
-			key_value = dequoted_value
+			key_value = unescapeString(dequoted_value)
 		} else {
 			errors = append(errors, fmt.Errorf("error: key does not start with  \" and/or end with \" key: '%s'", key_value))
 		}
@@ -501,7 +607,7 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 		if len(string_value) >= 2 && strings.HasPrefix(string_value, "\"") && strings.HasSuffix(string_value, "\"") {
 			data_type = "string"
 			dequoted_value := (string_value)[1:(len(string_value) - 1)]
-			string_value = dequoted_value
+			string_value = unescapeString(dequoted_value)
 		} else {
 			errors = append(errors, fmt.Errorf("error: value does not start with  \" and/or end with \" value: '%s'", string_value))
 		}
-- 
2.43.0


From daf18f6108143a795aa800534bb4fbaf04a028d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:31 +0000
Subject: [PATCH 05/18] fix: escape backslashes and control characters in
 serialised strings and keys

---
 json/JSON.go | 20 ++++++++++----------
 json/Map.go  |  7 +------
 2 files changed, 11 insertions(+), 16 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 1267052..2501a8b 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -921,40 +921,40 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		temp_string := temp_value.(string)
 		clone_string := common.CloneString(&temp_string)
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(*clone_string, "\"", "\\\""))
+		json.WriteString(escapeString(*clone_string))
 		json.WriteString("\"")
 	case "*string":
 		clone_string := common.CloneString(temp_value.(*string))
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(*clone_string, "\"", "\\\""))
+		json.WriteString(escapeString(*clone_string))
 		json.WriteString("\"")
 	case "error":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value.(error)), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", temp_value.(error))))
 		json.WriteString("\"")
 	case "*error":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", *(temp_value.(*error))), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", *(temp_value.(*error)))))
 		json.WriteString("\"")
 	case "*url.Error":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", (*(temp_value.(*url.Error))).Error()), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", (*(temp_value.(*url.Error))).Error())))
 		json.WriteString("\"")
 	case "exec.ExitError":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", temp_value)))
 		json.WriteString("\"")
 	case "*exec.ExitError":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", temp_value)))
 		json.WriteString("\"")
 	case "errors.errorString":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", temp_value)))
 		json.WriteString("\"")
 	case "*errors.errorString":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", temp_value)))
 		json.WriteString("\"")
 	case "bool":
 		if temp_value.(bool) {
@@ -1046,7 +1046,7 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		json.WriteString("]")
 	case "func(string, *string, string, string) []error", "func(json.Map) []error", "*func(json.Map) []error", "*func(string) []error", "func(string) []error":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", rep), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", rep)))
 		json.WriteString("\"")
 	case "*time.Time":
 		json.WriteString("\"")
diff --git a/json/Map.go b/json/Map.go
index 30e06f5..31c48ac 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -332,13 +332,8 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 		for i := 0; i < length; i++ {
 			key := (temp_keys)[i]
 			key_clone := common.CloneString(&key)
-			escaped_key, escaped_key_error := common.EscapeString(*key_clone, "\"")
-			if escaped_key_error != nil {
-				errors = append(errors, escaped_key_error)
-				return errors
-			}
 			json.WriteString("\"")
-			json.WriteString(escaped_key)
+			json.WriteString(escapeString(*key_clone))
 			json.WriteString("\":")
 			string_conversion_errors := ConvertInterfaceValueToJSONStringValue(json, internal_map[key])
 			if string_conversion_errors != nil {
-- 
2.43.0


From 76309d955c2178d7679f23d81ca87ec65904d435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:56 +0000
Subject: [PATCH 06/18] fix: Value.GetString returns its error for values that
 are not strings instead of panicking

---
 json/Value.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/json/Value.go b/json/Value.go
index 819b5e0..1f262ab 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -564,7 +564,6 @@ func NewValue(v interface{}) (*Value) {
 			case "*string":
 				result = this().GetObject().(*string)
 			default:
-				panic("debug")
 				errors = append(errors, fmt.Errorf("error Value.GetString: type %s is not supported please implement for attribute", rep))
 			}
 		
-- 
2.43.0


From 9159a537bcfd0213af55c5a571a2bf8a5e87fe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:01 +0000
Subject: [PATCH 07/18] fix: Value.GetInt64 refuses uint values that do not fit
 instead of wrapping them

---
 json/Value.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/json/Value.go b/json/Value.go
index 1f262ab..32bba5a 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -1123,10 +1123,18 @@ func NewValue(v interface{}) (*Value) {
 					temp_value = int64(x)
 				case "*uint":
 					x := this().GetObject().(*uint)
-					temp_value = int64(*x)
+					if *x > 9223372036854775807 {
+						errors = append(errors, fmt.Errorf("%d is greater than 9223372036854775807", *x))
+					} else {
+						temp_value = int64(*x)
+					}
 				case "uint":
 					x := this().GetObject().(uint)
-					temp_value = int64(x)
+					if x > 9223372036854775807 {
+						errors = append(errors, fmt.Errorf("%d is greater than 9223372036854775807", x))
+					} else {
+						temp_value = int64(x)
+					}
 				case "*string":
 					value, value_error := strconv.ParseInt(*(this().GetObject().(*string)), 10, 64)
 					if value_error != nil {
-- 
2.43.0


From 94189754d3322ef8204f6da445b7470a08257c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:04 +0000
Subject: [PATCH 08/18] fix: Value.Clone keeps percent signs in error messages

---
 json/Value.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/json/Value.go b/json/Value.go
index 32bba5a..40b7b64 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -202,38 +202,38 @@ func NewValue(v interface{}) (*Value) {
 					cloned_value.SetString(&result)
 				case "error":
 					result := fmt.Sprintf("%s",  temp_object.(error).Error())
-					cloned_value.SetErrorValue(fmt.Errorf(result))
+					cloned_value.SetErrorValue(fmt.Errorf("%s", result))
 				case "[]error": 
 					result := temp_object.([]error)
 					var result_array []error
 					for _, result_array_value := range result {
-						e := fmt.Errorf(fmt.Sprintf("%s", result_array_value.Error()))
+						e := fmt.Errorf("%s", result_array_value.Error())
 						result_array = append(result_array, e)
 					}	
 					cloned_value.SetErrorsValue(result_array)				
 				case "*error":
 					result := fmt.Sprintf("%s", (*(temp_object.(*error))).Error())
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetError(&cloned_error)
 				case "*url.Error":
 					result := fmt.Sprintf("%s", (*(temp_object.(*url.Error))).Error()) 
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetError(&cloned_error)
 				case "exec.ExitError":
 					result := fmt.Sprintf("%s", temp_object.(exec.ExitError))
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetErrorValue(cloned_error)
 				case "*exec.ExitError":
 					result := fmt.Sprintf("%s", *(temp_object.(*exec.ExitError)))
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetError(&cloned_error)
 				case "errors.errorString":
 					result := fmt.Sprintf("%s", temp_object)
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetErrorValue(cloned_error)
 				case "*errors.errorString":
 					result := fmt.Sprintf("%s", temp_object)
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetError(&cloned_error)
 				case "bool":
 					if temp_object.(bool) {
-- 
2.43.0


From 78b7b295270da6dbe3b952a85707b4bb02966fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:43 +0000
Subject: [PATCH 09/18] fix: a Value holding a time, errors or a function is
 not nil, so that it can be read back

---
 json/Value.go | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/json/Value.go b/json/Value.go
index 40b7b64..7613f13 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -649,17 +649,7 @@ func NewValue(v interface{}) (*Value) {
 		},
 		IsNil: func() bool {
 			temp_value := this().GetObject()
-			if common.IsNil(temp_value) {
-				return true
-			}
-			
-			return !(common.IsValue(temp_value) ||
-					common.IsNumber(temp_value) || 
-					common.IsBool(temp_value) || 
-					common.IsString(temp_value) || 
-					common.IsArray(temp_value) || 
-					common.IsMap(temp_value) ||
-					common.IsFunc(temp_value))
+			return common.IsNil(temp_value)
 		},
 		IsBool: func() bool {
 			return common.IsBool(this().GetObject())
-- 
2.43.0


From 0e94109e2ac27971817f27c6e51e45b222cda260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:46 +0000
Subject: [PATCH 10/18] fix: a string is a string even if its text looks like a
 nil value

---
 json/Array.go |  2 +-
 json/JSON.go  | 24 ++++++++++++++++++++----
 json/Map.go   |  4 ++--
 json/Value.go | 13 +++++++------
 4 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/json/Array.go b/json/Array.go
index c542672..5d044ec 100644
--- a/json/Array.go
+++ b/json/Array.go
@@ -440,7 +440,7 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 			value, value_errors := ((*a)[index]).GetStringValue()
 			if value_errors != nil {
 				errors = append(errors, fmt.Errorf("Array.GetStringValue has errors: %s", fmt.Sprintf("%s", value_errors)))
-			} else if common.IsNil(value) {
+			} else if isNil(value) {
 				errors = append(errors, fmt.Errorf("Array.GetStringValue value is nil"))
 			}
 		
diff --git a/json/JSON.go b/json/JSON.go
index 2501a8b..1d406cc 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -20,6 +20,22 @@ func cloneString(value *string) *string {
 	return &temp
 }
 
+// isNil is common.IsNil for everything but strings: a string is never nil, whatever its text is
+func isNil(object interface{}) bool {
+	if _, is_string := object.(string); is_string {
+		return false
+	}
+	return common.IsNil(object)
+}
+
+// getType is common.GetType for everything but strings: the type of a string is string, whatever its text is
+func getType(object interface{}) string {
+	if _, is_string := object.(string); is_string {
+		return "string"
+	}
+	return common.GetType(object)
+}
+
 func getTimeNow() *time.Time {
 	now := time.Now()
 	return &now
@@ -900,7 +916,7 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		return errors
 	}
 
-	if common.IsNil(value) {
+	if isNil(value) {
 		json.WriteString("null")
 		return nil
 	}
@@ -915,7 +931,7 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		temp_value = value
 	}
 
-	rep = common.GetType(temp_value)
+	rep = getType(temp_value)
 	switch rep {
 	case "string":
 		temp_string := temp_value.(string)
@@ -1119,7 +1135,7 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 	var errors []error
 	var result string
 
-	if common.IsNil(value) {
+	if isNil(value) {
 		return "null", nil
 	}
 
@@ -1133,7 +1149,7 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 		temp_value = value
 	}
 
-	rep = common.GetType(temp_value)
+	rep = getType(temp_value)
 	switch rep {
 	case "string":
 		result = temp_value.(string)
diff --git a/json/Map.go b/json/Map.go
index 31c48ac..e9926d9 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -223,12 +223,12 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 		type_of := common.GetType(value)
 		if type_of == "*json.Value" {
 			temp_object := value.GetObject()
-			if common.IsNil(temp_object) {
+			if isNil(temp_object) {
 				return true
 			}
 		} else if type_of == "json.Value" {
 			temp_object := value.GetObject()
-			if common.IsNil(temp_object) {
+			if isNil(temp_object) {
 				return true
 			}
 		}
diff --git a/json/Value.go b/json/Value.go
index 7613f13..8fa9142 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -556,7 +556,7 @@ func NewValue(v interface{}) (*Value) {
 		
 			var errors []error
 			var result *string
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "string":
 				value := this().GetObject().(string)
@@ -607,7 +607,8 @@ func NewValue(v interface{}) (*Value) {
 			return common.IsNumber(this().GetObject())
 		},
 		IsString: func() (bool) {
-			return common.IsString(this().GetObject())
+			type_of := getType(this().GetObject())
+			return type_of == "string" || type_of == "*string"
 		},
 		IsValueEqualToString: func(s *string) (bool) {
 			this_nil := this().IsNil()
@@ -630,7 +631,7 @@ func NewValue(v interface{}) (*Value) {
 		},
 		IsValueEqualToStringValue: func(s string) (bool) {
 			this_nil := this().IsNil()
-			compare_nil := common.IsNil(s)
+			compare_nil := isNil(s)
 			
 			if this_nil && compare_nil {
 				return true
@@ -649,7 +650,7 @@ func NewValue(v interface{}) (*Value) {
 		},
 		IsNil: func() bool {
 			temp_value := this().GetObject()
-			return common.IsNil(temp_value)
+			return isNil(temp_value)
 		},
 		IsBool: func() bool {
 			return common.IsBool(this().GetObject())
@@ -878,7 +879,7 @@ func NewValue(v interface{}) (*Value) {
 		
 			var errors []error
 			var result *string
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "string":
 				value := this().GetObject().(string)
@@ -1381,7 +1382,7 @@ func NewValue(v interface{}) (*Value) {
 			setObject(value)
 		},
 		GetType: func() string {
-			return common.GetType(this().GetObject())
+			return getType(this().GetObject())
 		},
 		IsInteger: func() bool {
 			return common.IsInteger(this().GetObject())
-- 
2.43.0


From 9fec859305bd8a26b57843fb1ee9ee27e6f23aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 11/18] fix: Array.Clone, GetStringValue and GetMap do not
 panic at a nil element

---
 json/Array.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/json/Array.go b/json/Array.go
index 5d044ec..1db8a8b 100644
--- a/json/Array.go
+++ b/json/Array.go
@@ -123,7 +123,9 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 		temp_values := getValues()
 		cloned := NewArray()
 		for _, temp_value := range *temp_values {
-			if temp_value.IsMap() {
+			if temp_value == nil {
+				cloned.AppendNil()
+			} else if temp_value.IsMap() {
 				temp_map, temp_map_errors := temp_value.GetMap()
 				if temp_map_errors != nil {
 					errors = append(errors, temp_map_errors...)
@@ -437,6 +439,11 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 				return "", errors
 			}
 		
+			if (*a)[index] == nil {
+				errors = append(errors, fmt.Errorf("Array.GetStringValue value is nil"))
+				return "", errors
+			}
+
 			value, value_errors := ((*a)[index]).GetStringValue()
 			if value_errors != nil {
 				errors = append(errors, fmt.Errorf("Array.GetStringValue has errors: %s", fmt.Sprintf("%s", value_errors)))
@@ -463,6 +470,11 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 				return nil, errors
 			}
 		
+			if (*a)[index] == nil {
+				errors = append(errors, fmt.Errorf("Array.GetMap value is nil"))
+				return nil, errors
+			}
+
 			value, value_errors := ((*a)[index]).GetMap()
 			if value_errors != nil {
 				errors = append(errors, fmt.Errorf("Array.GetStringValue has errors: %s", fmt.Sprintf("%s", value_errors)))
-- 
2.43.0


From 0439699c42b5e65d3c886ff565e5824a54d850cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:51 +0000
Subject: [PATCH 12/18] fix: Map.GetKeys returns a copy that a later RemoveKey
 does not change

---
 json/Map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json/Map.go b/json/Map.go
index e9926d9..2d40497 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -568,7 +568,7 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			return toJSONString(json_payload_builder)
 		},
 		GetKeys: func() ([]string) {
-			return getKeys()
+			return append([]string{}, getKeys()...)
 		},
 		SetArray: func(s string, array *Array) {
 			set_map_value := NewValue(array)
-- 
2.43.0


From 25c7663a0b32c5dcee089bd65421692e326dea12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:25 +0000
Subject: [PATCH 13/18] fix: set the advertised functions of Map, Array and
 Value that were left nil

---
 json/Array.go | 114 +++++++++++++++++++++++++++++++++++++++++++++++++-
 json/Map.go   |  41 ++++++++++++++++++
 json/Value.go |  50 ++++++++++++++++++++++
 3 files changed, 204 insertions(+), 1 deletion(-)

diff --git a/json/Array.go b/json/Array.go
index 1db8a8b..fb9a690 100644
--- a/json/Array.go
+++ b/json/Array.go
@@ -180,7 +180,8 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 		return cloned, nil
 	}
 
-	created_array := Array{
+	var created_array Array
+	created_array = Array{
 		Clone: func() (*Array, []error) {
 			return clone()
 		},
@@ -488,6 +489,9 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 		
 			return value, nil
 		},
+		GetArrayValue: func() (Array, []error) {
+			return created_array, nil
+		},
 		GetArrayOfInt8: func() (*[](*int8), []error) {
 			array_values := getValues()
 			if common.IsNil(array_values) {
@@ -569,6 +573,33 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 			
 			return &result, nil
 		},
+		GetArrayOfInt: func() (*[](*int), []error) {
+			array_values := getValues()
+			if common.IsNil(array_values) {
+				return nil, nil
+			}
+		
+			var errors []error
+			var result ([](*int))
+			for _, array_value := range *array_values {
+				if common.IsNil(array_value) {
+					result = append(result, nil)			 
+				} else {
+					int_value, int_value_errors := array_value.GetInt()
+					if int_value_errors != nil {
+						errors = append(errors, int_value_errors...)
+					} else {
+						result = append(result, int_value)			 
+					}
+				}
+			}
+		
+			if len(errors) > 0 {
+				return nil, errors
+			}
+			
+			return &result, nil
+		},
 		GetArrayOfInt64: func() (*[](*int64), []error) {
 			array_values := getValues()
 			if common.IsNil(array_values) {
@@ -677,6 +708,33 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 			
 			return &result, nil
 		},
+		GetArrayOfUInt: func() (*[](*uint), []error) {
+			array_values := getValues()
+			if common.IsNil(array_values) {
+				return nil, nil
+			}
+		
+			var errors []error
+			var result ([](*uint))
+			for _, array_value := range *array_values {
+				if common.IsNil(array_value) {
+					result = append(result, nil)			 
+				} else {
+					uint_value, uint_value_errors := array_value.GetUInt()
+					if uint_value_errors != nil {
+						errors = append(errors, uint_value_errors...)
+					} else {
+						result = append(result, uint_value)			 
+					}
+				}
+			}
+		
+			if len(errors) > 0 {
+				return nil, errors
+			}
+			
+			return &result, nil
+		},
 		GetArrayOfUInt64: func() (*[](*uint64), []error) {
 			array_values := getValues()
 			if common.IsNil(array_values) {
@@ -785,6 +843,33 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 			
 			return result, nil
 		},
+		GetArrayOfIntValue: func() ([](int), []error) {
+			array_values := getValues()
+			if common.IsNil(array_values) {
+				return nil, nil
+			}
+		
+			var errors []error
+			var result ([](int))
+			for _, array_value := range *array_values {
+				if common.IsNil(array_value) {
+					errors = append(errors, fmt.Errorf("array contained a null value")) 
+				} else {
+					int_value, int_value_errors := array_value.GetIntValue()
+					if int_value_errors != nil {
+						errors = append(errors, int_value_errors...)
+					} else {
+						result = append(result, int_value)			 
+					}
+				}
+			}
+		
+			if len(errors) > 0 {
+				return nil, errors
+			}
+			
+			return result, nil
+		},
 		GetArrayOfInt64Value: func() ([](int64), []error) {
 			array_values := getValues()
 			if common.IsNil(array_values) {
@@ -893,6 +978,33 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 			
 			return result, nil
 		},
+		GetArrayOfUIntValue: func() ([](uint), []error) {
+			array_values := getValues()
+			if common.IsNil(array_values) {
+				return nil, nil
+			}
+		
+			var errors []error
+			var result ([](uint))
+			for _, array_value := range *array_values {
+				if common.IsNil(array_value) {
+					errors = append(errors, fmt.Errorf("array contained a null value")) 
+				} else {
+					uint_value, uint_value_errors := array_value.GetUIntValue()
+					if uint_value_errors != nil {
+						errors = append(errors, uint_value_errors...)
+					} else {
+						result = append(result, uint_value)			 
+					}
+				}
+			}
+		
+			if len(errors) > 0 {
+				return nil, errors
+			}
+			
+			return result, nil
+		},
 		GetArrayOfUInt64Value: func() ([](uint64), []error) {
 			array_values := getValues()
 			if common.IsNil(array_values) {
diff --git a/json/Map.go b/json/Map.go
index 2d40497..a459b10 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -637,6 +637,15 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			}
 			return array.GetArrayOfInt32()
 		},
+		GetArrayOfInt: func(s string) (*[]*int, []error) {
+			array, array_errors := getArray(s)
+			if array_errors != nil {
+				return nil, array_errors
+			} else if common.IsNil(array) {
+				return nil, nil
+			}
+			return array.GetArrayOfInt()
+		},
 		GetArrayOfInt64: func(s string) (*[]*int64, []error) {
 			array, array_errors := getArray(s)
 			if array_errors != nil {
@@ -673,6 +682,15 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			}
 			return array.GetArrayOfUInt32()
 		},
+		GetArrayOfUInt: func(s string) (*[]*uint, []error) {
+			array, array_errors := getArray(s)
+			if array_errors != nil {
+				return nil, array_errors
+			} else if common.IsNil(array) {
+				return nil, nil
+			}
+			return array.GetArrayOfUInt()
+		},
 		GetArrayOfUInt64: func(s string) (*[]*uint64, []error) {
 			array, array_errors := getArray(s)
 			if array_errors != nil {
@@ -823,6 +841,14 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			}
 			return getInternalValue(s).GetBool()
 		},
+		GetBoolValue: func(s string) (bool, []error) {
+			if isValueNilForMap(s) {
+				var errors []error
+				errors = append(errors, fmt.Errorf("json.Map.GetBoolValue value is nil"))
+				return false, errors
+			}
+			return getInternalValue(s).GetBoolValue()
+		},
 		SetBool: func(s string, value *bool) {
 			set_map_value := NewValue(value)
 			setInternalValue(s, set_map_value)
@@ -968,6 +994,13 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 
 			return getInternalValue(s).GetInt()
 		},
+		GetUInt: func(s string) (*uint, []error) {
+			if isValueNilForMap(s) {
+				return nil, nil
+			}
+
+			return getInternalValue(s).GetUInt()
+		},
 		GetIntValue: func(s string) (int, []error) {
 			if isValueNilForMap(s) {
 				var errors []error
@@ -976,6 +1009,14 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			}
 			return getInternalValue(s).GetIntValue()
 		},
+		GetUIntValue: func(s string) (uint, []error) {
+			if isValueNilForMap(s) {
+				var errors []error
+				errors = append(errors, fmt.Errorf("json.Map.GetUIntValue value is nil"))
+				return 0, errors
+			}
+			return getInternalValue(s).GetUIntValue()
+		},
 		SetInt: func(s string, value *int) {
 			set_map_value := NewValue(value)
 			setInternalValue(s, set_map_value)
diff --git a/json/Value.go b/json/Value.go
index 8fa9142..ae9b29e 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -1837,6 +1837,56 @@ func NewValue(v interface{}) (*Value) {
 		
 			return result, nil
 		},
+		GetUInt: func() (*uint, []error) {
+			var errors []error
+			var result uint
+			bit_size := strconv.IntSize
+			if bit_size == 32 {
+				temp_value, temp_value_errors := this().GetUInt32()
+				if temp_value_errors != nil {
+					return nil, temp_value_errors
+				} else if temp_value == nil {
+					return nil, nil
+				}
+		
+				result = uint(*temp_value)
+			} else if bit_size == 64 {
+				temp_value, temp_value_errors := this().GetUInt64()
+				if temp_value_errors != nil {
+					return nil, temp_value_errors
+				} else if temp_value == nil {
+					return nil, nil
+				}
+		
+				result = uint(*temp_value)
+			} else {
+				errors = append(errors, fmt.Errorf("Value.GetUInt bit size is not supported: %d", bit_size))
+			}
+		
+			if len(errors) > 0 {
+				return nil, errors
+			}
+		
+			return &result, nil
+		},
+		GetUIntValue: func() (uint, []error) {
+			var errors []error
+			int_value, int_value_errors := this().GetUInt()
+			if int_value_errors != nil {
+				errors = append(errors, int_value_errors...)
+			} else if int_value == nil {
+				errors = append(errors, fmt.Errorf("error:  Value.GetUInt() returned nil"))
+			}
+		
+			if len(errors) > 0 {
+				return 0, errors
+			}
+		
+			int_conv := uint(*int_value)
+			result := int_conv
+		
+			return result, nil
+		},
 		SetObject: func(value interface{}) () {
 			setObject(value)
 		},
-- 
2.43.0


From 2693b441f1127e82e8acd4b9e79925f75b802e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:56 +0000
Subject: [PATCH 14/18] fix: time reads of a nil value or of text that is no
 time return an error instead of a zero time or a panic

---
 json/JSON.go  | 8 ++++++++
 json/Value.go | 8 ++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 1d406cc..cabf77d 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -20,6 +20,14 @@ func cloneString(value *string) *string {
 	return &temp
 }
 
+// timeObject returns the value for common.GetTime, which panics for strings (but not string pointers) that are not a time
+func timeObject(object interface{}) interface{} {
+	if string_value, is_string := object.(string); is_string {
+		return &string_value
+	}
+	return object
+}
+
 // isNil is common.IsNil for everything but strings: a string is never nil, whatever its text is
 func isNil(object interface{}) bool {
 	if _, is_string := object.(string); is_string {
diff --git a/json/Value.go b/json/Value.go
index ae9b29e..1f89826 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -1357,21 +1357,21 @@ func NewValue(v interface{}) (*Value) {
 				return nil, nil
 			}
 		
-			return common.GetTimeWithDecimalPlaces(this().GetObject(), decimal_places)
+			return common.GetTimeWithDecimalPlaces(timeObject(this().GetObject()), decimal_places)
 		},
 		GetTime: func() (*time.Time, []error) {
 			if this().IsNil() {
 				return nil, nil
 			}
 		
-			return common.GetTime(this().GetObject())
+			return common.GetTime(timeObject(this().GetObject()))
 		},
 		GetTimeValue: func() (time.Time, []error) {
-			temp_time, temp_time_errors := common.GetTime(this().GetObject())
+			temp_time, temp_time_errors := this().GetTime()
 			if temp_time_errors != nil {
 				return (*common.GetTimeZero()), temp_time_errors
 			} else if common.IsNil(temp_time) {
-				return (*common.GetTimeZero()), temp_time_errors
+				return (*common.GetTimeZero()), []error{fmt.Errorf("Value.GetTimeValue value is nil")}
 			}
 			return *temp_time, nil
 		},
-- 
2.43.0


From b5f9b94e0ce5b807be4569c53796352d6a16bf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:20 +0000
Subject: [PATCH 15/18] fix: cloning or rendering a value that holds a nil
 error does not panic

---
 json/JSON.go  |  2 +-
 json/Value.go | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index cabf77d..bfcb286 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -1166,7 +1166,7 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 	case "error":
 		result = fmt.Sprintf("%s", temp_value.(error).Error())
 	case "*error":
-		result = fmt.Sprintf("%s", (*(temp_value.(*error))).Error())
+		result = fmt.Sprintf("%s", *(temp_value.(*error)))
 	case "*url.Error":
 		result = fmt.Sprintf("%s", (*(temp_value.(*url.Error))).Error())
 	case "exec.ExitError":
diff --git a/json/Value.go b/json/Value.go
index 1f89826..92e050b 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -207,13 +207,19 @@ func NewValue(v interface{}) (*Value) {
 					result := temp_object.([]error)
 					var result_array []error
 					for _, result_array_value := range result {
+						if result_array_value == nil {
+							result_array = append(result_array, nil)
+							continue
+						}
 						e := fmt.Errorf("%s", result_array_value.Error())
 						result_array = append(result_array, e)
 					}	
 					cloned_value.SetErrorsValue(result_array)				
 				case "*error":
-					result := fmt.Sprintf("%s", (*(temp_object.(*error))).Error())
-					cloned_error := fmt.Errorf("%s", result)
+					var cloned_error error
+					if error_value := *(temp_object.(*error)); error_value != nil {
+						cloned_error = fmt.Errorf("%s", error_value.Error())
+					}
 					cloned_value.SetError(&cloned_error)
 				case "*url.Error":
 					result := fmt.Sprintf("%s", (*(temp_object.(*url.Error))).Error()) 
-- 
2.43.0


From d4552bda3b6095e7dd1eea6eca503a703ac2be9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:53 +0000
Subject: [PATCH 16/18] fix: white space and backslashes inside a number or
 literal were dropped when parsing, so 1 2 was stored as 12

---
 json/JSON.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index bfcb286..721e23e 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -654,12 +654,6 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 	var uint8_value *uint8
 
 	if data_type != "string" {
-		string_value = strings.ReplaceAll(string_value, "\n", "")
-		string_value = strings.ReplaceAll(string_value, "\t", "")
-		string_value = strings.ReplaceAll(string_value, " ", "")
-		string_value = strings.ReplaceAll(string_value, "\r", "")
-		string_value = strings.ReplaceAll(string_value, "\\", "")
-
 		if string_value == "true" {
 			data_type = "bool"
 			boolean_value_true := true
-- 
2.43.0


From a50a7a08d7fe08dd4479914be76cdf73d6c1c935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:23 +0000
Subject: [PATCH 17/18] fix: Map.IsNil answered true for every map

---
 json/Map.go | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/json/Map.go b/json/Map.go
index a459b10..00ad819 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -449,18 +449,8 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 		IsNull: func(s string) bool {
 			return isValueNilForMap(s)
 		},
-		IsNil: func() bool {			
-			if common.IsNil(internal_map) {
-				return true
-			}
-	
-			return !(common.IsValue(internal_map) ||
-					common.IsNumber(internal_map) || 
-					common.IsBool(internal_map) || 
-					common.IsString(internal_map) || 
-					common.IsArray(internal_map) || 
-					common.IsMap(internal_map) ||
-					common.IsFunc(internal_map))
+		IsNil: func() bool {
+			return common.IsNil(internal_map)
 		},
 		IsBool: func(s string) bool {
 			if isValueNilForMap(s) {
-- 
2.43.0


From dba426327c01f2fac24a371d9bdb06896b5f9a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:46 +0000
Subject: [PATCH 18/18] fix: parse accepts white space around the document

---
 json/JSON.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/json/JSON.go b/json/JSON.go
index 721e23e..d5d92ee 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -51,6 +51,7 @@ func getTimeNow() *time.Time {
 
 func Parse(s string) (*Map, []error) {
 	var errors []error
+	s = strings.TrimSpace(s)
 	if s == "" {
 		errors = append(errors, fmt.Errorf("error: value empty string"))
 	}
-- 
2.43.0

