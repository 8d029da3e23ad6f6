// Annotations: C22.

fun indexOf(s: string, x: string): int
axiom indexRange = forall s: string, x: string {indexOf(s, x)} :: indexOf(s, x) >= 0 ==> indexOf(s, x) + len(x) <= len(s)
axiom indexHas = forall s: string, x: string {contains(s, x)} {indexOf(s, x)} :: contains(s, x) <==> indexOf(s, x) >= 0
axiom indexAt = forall s: string, x: string {indexOf(s, x)} :: len(x) == 1 && indexOf(s, x) >= 0 ==> s[indexOf(s, x)] == x[0]
axiom suffixOne = forall s: string, x: string {hasSuffix(s, x)} :: len(x) == 1 ==> (hasSuffix(s, x) <==> len(s) >= 1 && s[len(s) - 1] == x[0])

trusted func strings.SplitN(s, x, n) (r)
ensures n == 2 && indexOf(s, x) >= 0 && len(x) > 0 ==> len(r) == 2 && r[0] == s[0:indexOf(s, x)] && r[1] == s[indexOf(s, x) + len(x):len(s)]
ensures n == 2 && indexOf(s, x) < 0 ==> len(r) == 1 && r[0] == s
why "as documented"
trusted func strings.Cut(s, x) (a, b, found)
ensures found <==> indexOf(s, x) >= 0
ensures found ==> a == s[0:indexOf(s, x)] && b == s[indexOf(s, x) + len(x):len(s)]
ensures !found ==> a == s && b == ""
why "as documented"
trusted func strings.Index(s, x) (r)
result r = indexOf(s, x)
why "as documented"
trusted func strings.HasSuffix(s, x) (r)
result r = hasSuffix(s, x)
why "as documented"

// s is a list name=value,...,name=value of the published form, and its pairs
pred annList(s: string)
fun annCount(s: string): int
fun annName(s: string, i: int): string
fun annValue(s: string, i: int): string
axiom annCountPos = forall s: string {annCount(s)} :: annCount(s) >= 0

// the pattern of a compiled expression, and what @annotation proves of every
// pattern in the program: how many groups it has, and which of them are the
// name and the value when it is applied to an annotation list (0: none)
fun reText(r: *regexp.Regexp): string
fun reGroups(t: string): int
fun reName(t: string): int
fun reValue(t: string): int

trusted func regexp.(*Regexp).FindAllStringSubmatch(re, s, n) (r)
requires re != nil
ensures forall i: int {r[i]} :: 0 <= i && i < len(r) ==> len(r[i]) == reGroups(reText(re)) + 1
ensures n < 0 && annList(s) && reName(reText(re)) > 0 ==> len(r) == annCount(s)
ensures n < 0 && annList(s) && reName(reText(re)) > 0 ==> forall i: int {r[i]} :: 0 <= i && i < len(r) ==> r[i][reName(reText(re))] == annName(s, i) && r[i][reValue(reText(re))] == annValue(s, i)
why "package regexp: all successive leftmost-first matches; what they are on annotation lists is proved by @annotation"

pred annShape(s: string) = len(s) >= 3 && indexOf(s, "(") >= 0 && s[len(s) - 1] == 41

func utils.ParseAnnotation(input) (a, err)
observe regexp.(*Regexp).FindAllStringSubmatch
let p = indexOf(input, "(")
let list = input[p + 1:len(input) - 1]
ensures [C22] !annShape(input) ==> err != nil
ensures [C22] annShape(input) && p > 0 ==> err == nil
ensures [C22] err == nil ==> a != nil && a.Target == input[0:p]
ensures [C22] err == nil && annList(list) ==> len(a.Attributes) == annCount(list)
ensures [C22] err == nil && annList(list) ==> forall i: int :: 0 <= i && i < annCount(list) ==> a.Attributes[i].Name == annName(list, i) && a.Attributes[i].Value == annValue(list, i)
frame [C22]
nopanic [C22]
loop over ret("regexp.(*Regexp).FindAllStringSubmatch", 0) as i
invariant any x: []utils.AnnotationAttribute :: len(x) == len(ret("regexp.(*Regexp).FindAllStringSubmatch", 0))
invariant any x: []utils.AnnotationAttribute :: len(x) == i
invariant any x: []utils.AnnotationAttribute :: annList(list) ==> forall k: int :: 0 <= k && k < i ==> x[k].Name == annName(list, k) && x[k].Value == annValue(list, k)
