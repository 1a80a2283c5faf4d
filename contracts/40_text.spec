// ---- the text of strings: escaping and unescaping

def isesc1(b) = b == 34 || b == 92 || b == 47 || b == 98 || b == 102 || b == 110 || b == 114 || b == 116
def hexdigit(b) = 48 <= b && b <= 57 || 97 <= b && b <= 102 || 65 <= b && b <= 70
def hexvalue(b) = ite(b <= 57, b - 48, ite(b <= 70, b - 55, b - 87))
def hexchar(v) = chr(ite(v < 10, v + 48, v + 87))
def hex4(s, i) = i+4 <= len(s) && hexdigit(s[i]) && hexdigit(s[i+1]) && hexdigit(s[i+2]) && hexdigit(s[i+3])
def hexcode(s, i) = hexvalue(s[i])*4096 + hexvalue(s[i+1])*256 + hexvalue(s[i+2])*16 + hexvalue(s[i+3])

// the JSON text of one byte, and of the first i bytes of a text
def escbyte(b) = ite(b == 34 || b == 92, cat(chr(92), chr(b)), ite(b == 10, "\\n", ite(b == 13, "\\r", ite(b == 9, "\\t", ite(b == 8, "\\b", ite(b == 12, "\\f", \
  ite(b < 32, cat("\\u00", hexchar(b/16), hexchar(b%16)), chr(b))))))))
rec esc(s str, i int) str = ite(i <= 0, "", cat(esc(s, i-1), escbyte(s[i-1])))

// what the text means from position i: the bytes an escape or plain byte stands for, and how many bytes it takes
def surrogates(s, i) = hexcode(s, i+2) >= 55296 && hexcode(s, i+2) < 56320 && i+7 < len(s) && s[i+6] == 92 && s[i+7] == 117 && hex4(s, i+8) && hexcode(s, i+8) >= 56320 && hexcode(s, i+8) < 57344
def plain(s, i) = s[i] != 92 || i+1 >= len(s)
def unescstep(s, i) = ite(plain(s, i), 1, ite(isesc1(s[i+1]), 2, ite(s[i+1] == 117, ite(hex4(s, i+2), ite(surrogates(s, i), 12, 6), 2), 1)))
def unesctext(s, i) = ite(plain(s, i), chr(s[i]), ite(s[i+1] == 34 || s[i+1] == 92 || s[i+1] == 47, chr(s[i+1]), ite(s[i+1] == 110, chr(10), ite(s[i+1] == 114, chr(13), \
  ite(s[i+1] == 116, chr(9), ite(s[i+1] == 98, chr(8), ite(s[i+1] == 102, chr(12), ite(s[i+1] == 117, ite(hex4(s, i+2), \
  ite(surrogates(s, i), utf8enc(65536 + (hexcode(s, i+2)-55296)*1024 + (hexcode(s, i+8)-56320)), utf8enc(hexcode(s, i+2))), "\\u"), chr(s[i])))))))))
rec unesc(s str, i int) str = ite(i >= len(s), "", cat(unesctext(s, i), unesc(s, i + unescstep(s, i))))

// nothing of a text needs escaping: no bare quote, no control character, every backslash starts an escape
rec clean(s str, i int) bool = i >= len(s) || s[i] >= 32 && s[i] != 34 && ite(s[i] == 92, i+1 < len(s) && (isesc1(s[i+1]) && clean(s, i+2) || s[i+1] == 117 && hex4(s, i+2) && clean(s, i+6)), clean(s, i+1))

// the JSON text of the first k bytes stands at the front of that of the first n
lemma [C10,C14] esc_len(v str, n int, k int) {esc(v, n), esc(v, k)} for none : implies(0 <= k && k <= n, len(esc(v, k)) <= len(esc(v, n)))
  measure n
  use esc_len(v, n-1, k)
lemma [C10,C14] esc_at(v str, n int, k int, j int) {esc(v, n)[len(esc(v, k))+j]} for none : implies(0 <= k && k < n && n <= len(v) && 0 <= j && j < len(escbyte(v[k])), \
  esc(v, n)[len(esc(v, k))+j] == escbyte(v[k])[j] && len(esc(v, k)) + len(escbyte(v[k])) <= len(esc(v, n)) && len(esc(v, k+1)) == len(esc(v, k)) + len(escbyte(v[k])))
  measure n
  use esc_at(v, n-1, k, j)
  use esc_len(v, n, k+1)
// decoding the JSON text of a text gives the text
lemma [C10,C14] unesc_esc(v str, k int) {unesc(esc(v, len(v)), len(esc(v, k)))} for none : implies(0 <= k && k <= len(v), unesc(esc(v, len(v)), len(esc(v, k))) == v[k:len(v)])
  measure len(v) - k
  use unesc_esc(v, k+1)
  use esc_at(v, len(v), k, 0)
  use esc_at(v, len(v), k, 1)
  use esc_at(v, len(v), k, 2)
  use esc_at(v, len(v), k, 3)
  use esc_at(v, len(v), k, 4)
  use esc_at(v, len(v), k, 5)
lemma [C10] esc_clean(v str, k int) {clean(esc(v, len(v)), len(esc(v, k)))} for none : implies(0 <= k && k <= len(v), clean(esc(v, len(v)), len(esc(v, k))))
  measure len(v) - k
  use esc_clean(v, k+1)
  use esc_at(v, len(v), k, 0)
  use esc_at(v, len(v), k, 1)
  use esc_at(v, len(v), k, 2)
  use esc_at(v, len(v), k, 3)
  use esc_at(v, len(v), k, 4)
  use esc_at(v, len(v), k, 5)
lemma [C10,C14] unesc_plain(s str, i int) {unesc(s, i)} for none : implies(0 <= i && i <= len(s) && forall(j, int, implies(i <= j && j < len(s), s[j] != 92)), unesc(s, i) == s[i:len(s)])
  measure len(s) - i
  use unesc_plain(s, i+1)

lemma [C10] esc_is_clean(v str) {clean(esc(v, len(v)), 0)} for clean : clean(esc(v, len(v)), 0)
  use esc_clean(v, 0)
lemma [C10,C14] unesc_undoes(v str) {unesc(esc(v, len(v)), 0)} for unesc : unesc(esc(v, len(v)), 0) == v
  use unesc_esc(v, 0)
lemma [C10] unesc_keeps(s str) {unesc(s, 0)} for unesc : implies(forall(j, int, implies(0 <= j && j < len(s), s[j] != 92)), unesc(s, 0) == s)
  use unesc_plain(s, 0)

func escapeString(value)
  ensures [C10,C09,C14] the JSON text of every byte in turn : r0 == esc(value, len(value))
  ensures [C10] nothing left to escape : clean(r0, 0)
  loop 0 invariant [C10,C09,C14] so far : 0 <= loopvar("int") && loopvar("int") <= len(value) && loopvar("strings.Builder") == esc(value, loopvar("int"))
func hexCode(value, start)
  also [C11]
  requires a position : 0 <= start && start <= len(value) + 16
  ensures four hex digits : r1 == hex4(value, start)
  ensures their value : implies(r1, r0 == hexcode(value, start))
func unescapeString(value)
  also [C11]
  ensures [C10,C13,C14,C02] every escape decoded : r0 == unesc(value, 0)
  ensures [C10,C14] undoes escaping : forall(v, str, implies(value == esc(v, len(v)), r0 == v))
  ensures [C10] text without escapes stays : implies(forall(j, int, implies(0 <= j && j < len(value), value[j] != 92)), r0 == value)
  loop 0 invariant position : 0 <= loopvar("int") && loopvar("int") <= len(value)
  loop 0 invariant [C10,C13,C14,C02] decoded so far : cat(loopvar("strings.Builder"), unesc(value, loopvar("int"))) == unesc(value, 0)
  loop 0 decreases len(value) - loopvar("int")
