// The browser build: C23.

// s has t as a part
pred hasPart(s: string, t: string)
axiom partSelf = forall s: string {hasPart(s, s)} :: hasPart(s, s)
axiom partLeft = forall a: string, b: string, t: string {hasPart(a + b, t)} :: hasPart(a, t) ==> hasPart(a + b, t)
axiom partRight = forall a: string, b: string, t: string {hasPart(a + b, t)} :: hasPart(b, t) ==> hasPart(a + b, t)

fun jsText(v: js.Value): string

trusted func js.Value.String(v) (r)
result r = jsText(v)
why "syscall/js: the text of a string value"

pred parsedOnce(s: string) = calls("kfparser.ParseKF") + calls("kfparser.Parse") == 1
  && (calls("kfparser.ParseKF") == 1 ==> arg("kfparser.ParseKF", 0) == s)
  && (calls("kfparser.Parse") == 1 ==> arg("kfparser.Parse", 0) == s)
pred accepted() = (calls("kfparser.ParseKF") == 1 ==> ret("kfparser.ParseKF", 1) == nil) && (calls("kfparser.Parse") == 1 ==> ret("kfparser.Parse", 1) == nil)
pred jsonDone() = calls("json.MarshalIndent") == 1 && ret("json.MarshalIndent", 1) == nil

// the function handed to the browser
func wasm.exposed(this, args) (r)
observe kfparser.ParseKF, kfparser.Parse, json.MarshalIndent
freshIn schema.declCtx
modifies ghost lexHears, ghost parHears
ensures [C23] len(args) != 1 ==> isType(r, string) && calls("kfparser.ParseKF") + calls("kfparser.Parse") == 0
ensures [C23] len(args) == 1 ==> isType(r, map[string]any)
ensures [C23] len(args) == 1 ==> "json" in as(r, map[string]any)
ensures [C23] len(args) == 1 ==> parsedOnce(jsText(args[0]))
ensures [C23] len(args) == 1 && accepted() ==> calls("json.MarshalIndent") == 1 && arg("json.MarshalIndent", 1) == "" && arg("json.MarshalIndent", 2) == "  "
ensures [C23] len(args) == 1 && accepted() && calls("kfparser.ParseKF") == 1 ==> arg("json.MarshalIndent", 0) == ret("kfparser.ParseKF", 0)
ensures [C23] len(args) == 1 && accepted() && calls("kfparser.Parse") == 1 ==> arg("json.MarshalIndent", 0) == ret("kfparser.Parse", 0)
ensures [C23] len(args) == 1 && accepted() && jsonDone() ==> !("error" in as(r, map[string]any)) && as(r, map[string]any)["json"] == box(bytes(ret("json.MarshalIndent", 0)))
ensures [C23] len(args) == 1 && !(accepted() && jsonDone()) ==> "error" in as(r, map[string]any) && isType(as(r, map[string]any)["error"], string) && as(r, map[string]any)["json"] == box("")
ensures [C23] len(args) == 1 && calls("kfparser.ParseKF") == 1 && !accepted() ==> hasPart(as(as(r, map[string]any)["error"], string), errMsg(ret("kfparser.ParseKF", 1)))
ensures [C23] len(args) == 1 && calls("kfparser.Parse") == 1 && !accepted() ==> hasPart(as(as(r, map[string]any)["error"], string), errMsg(ret("kfparser.Parse", 1)))
nopanic [C23]

// the program installs the function under its name and stays
func wasm.main() ()
observe js.FuncOf, js.Value.Set
parks [C23] calls("js.FuncOf") == 1 && calls("js.Value.Set") == 1 && arg("js.Value.Set", 1) == "parseKuneiform" && arg("js.Value.Set", 2) == box(ret("js.FuncOf", 0))
ensures [C23] false
