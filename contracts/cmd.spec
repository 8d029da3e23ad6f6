// The command line tool: C18, C19.  The file system is ghost state.

// content of every file, position and state of open files, failed and
// file-changing operations so far
ghost fsData: array[string]string
ghost fsPos: array[*os.File]int
ghost fsOpen: array[*os.File]bool
ghost fsFails: int
ghost fsTouched: int

fun fileName(f: *os.File): string
fun overwrite(c: string, p: int, b: string): string
axiom overwriteEnd = forall c: string, b: string {overwrite(c, len(c), b)} :: overwrite(c, len(c), b) == c + b
axiom overwriteEmpty = forall b: string {overwrite("", 0, b)} :: overwrite("", 0, b) == b

// bit 1, 2: write access; 64: create; 512: truncate; 1024: append
trusted func os.OpenFile(name, flag, perm) (f, err)
modifies ghost fsData, ghost fsPos, ghost fsOpen, ghost fsFails, ghost fsTouched
ensures f != nil <==> err == nil
ensures err == nil ==> fresh(f) && fileName(f) == name && fsOpen[f]
ensures forall g: *os.File {fsOpen[g]} :: g != f || err != nil ==> fsOpen[g] == old(fsOpen[g])
ensures forall g: *os.File {fsPos[g]} :: g != f || err != nil ==> fsPos[g] == old(fsPos[g])
ensures err == nil && !bit(flag, 1024) ==> fsPos[f] == 0
ensures err == nil && bit(flag, 1024) ==> fsPos[f] == len(fsData[name])
ensures err == nil && bit(flag, 512) ==> fsData[name] == ""
ensures err == nil && !bit(flag, 512) && old(fsData[name]) != "" ==> fsData[name] == old(fsData[name])
ensures forall q: string {fsData[q]} :: q != name ==> fsData[q] == old(fsData[q])
ensures err == nil ==> fsFails == old(fsFails)
ensures err != nil ==> fsFails == old(fsFails) + 1
ensures fsTouched == old(fsTouched) + 1
why "operating system: opening a file for writing"

trusted func os.Create(name) (f, err)
modifies ghost fsData, ghost fsPos, ghost fsOpen, ghost fsFails, ghost fsTouched
ensures f != nil <==> err == nil
ensures err == nil ==> fresh(f) && fileName(f) == name && fsOpen[f] && fsPos[f] == 0 && fsData[name] == ""
ensures forall g: *os.File {fsOpen[g]} :: g != f || err != nil ==> fsOpen[g] == old(fsOpen[g])
ensures forall g: *os.File {fsPos[g]} :: g != f || err != nil ==> fsPos[g] == old(fsPos[g])
ensures forall q: string {fsData[q]} :: q != name ==> fsData[q] == old(fsData[q])
ensures err == nil ==> fsFails == old(fsFails)
ensures err != nil ==> fsFails == old(fsFails) + 1
ensures fsTouched == old(fsTouched) + 1
why "operating system: creating or truncating a file"

trusted func os.(*File).Write(f, b) (n, err)
requires f != nil
modifies ghost fsData, ghost fsPos, ghost fsFails, ghost fsTouched
ensures err == nil ==> n == len(b) && fsData[fileName(f)] == overwrite(old(fsData[fileName(f)]), old(fsPos[f]), bytes(b)) && fsPos[f] == old(fsPos[f]) + len(b)
ensures forall g: *os.File {fsPos[g]} :: g != f ==> fsPos[g] == old(fsPos[g])
ensures forall q: string {fsData[q]} :: q != fileName(f) ==> fsData[q] == old(fsData[q])
ensures err == nil ==> fsFails == old(fsFails)
ensures err != nil ==> fsFails == old(fsFails) + 1
ensures fsTouched == old(fsTouched) + 1
why "operating system: a write without error writes everything at the current position"

trusted func os.(*File).WriteString(f, b) (n, err)
requires f != nil
modifies ghost fsData, ghost fsPos, ghost fsFails, ghost fsTouched
ensures err == nil ==> n == len(b) && fsData[fileName(f)] == overwrite(old(fsData[fileName(f)]), old(fsPos[f]), b) && fsPos[f] == old(fsPos[f]) + len(b)
ensures forall g: *os.File {fsPos[g]} :: g != f ==> fsPos[g] == old(fsPos[g])
ensures forall q: string {fsData[q]} :: q != fileName(f) ==> fsData[q] == old(fsData[q])
ensures err == nil ==> fsFails == old(fsFails)
ensures err != nil ==> fsFails == old(fsFails) + 1
ensures fsTouched == old(fsTouched) + 1
why "operating system: a write without error writes everything at the current position"

trusted func os.(*File).Sync(f) (err)
requires f != nil
modifies ghost fsFails
ensures err == nil ==> fsFails == old(fsFails)
ensures err != nil ==> fsFails == old(fsFails) + 1
why "operating system"

// closing a closed file is an error of the program, not of the file system
trusted func os.(*File).Close(f) (err)
modifies ghost fsFails, ghost fsOpen
ensures !fsOpen[f]
ensures forall g: *os.File {fsOpen[g]} :: g != f ==> fsOpen[g] == old(fsOpen[g])
ensures err == nil ==> fsFails == old(fsFails)
ensures err != nil && old(fsOpen[f]) ==> fsFails == old(fsFails) + 1
ensures err != nil && !old(fsOpen[f]) ==> fsFails == old(fsFails)
why "operating system"

trusted func os.WriteFile(name, data, perm) (err)
modifies ghost fsData, ghost fsFails, ghost fsTouched
ensures err == nil ==> fsData[name] == bytes(data)
ensures forall q: string {fsData[q]} :: q != name ==> fsData[q] == old(fsData[q])
ensures err == nil ==> fsFails == old(fsFails)
ensures err != nil ==> fsFails == old(fsFails) + 1
ensures fsTouched == old(fsTouched) + 1
why "operating system"

fun pathBase(s: string): string
fun pathExt(s: string): string
fun pathJoin(a: string, b: string): string
pred hasSuffix(s: string, x: string)
axiom extSuffix = forall s: string {pathExt(s)} :: hasSuffix(s, pathExt(s)) && len(pathExt(s)) <= len(s) && len(pathExt(s)) >= 0

trusted func filepath.Base(s) (r)
result r = pathBase(s)
why "path arithmetic"
trusted func filepath.Ext(s) (r)
result r = pathExt(s)
why "path arithmetic"
trusted func filepath.Join(e) (r)
ensures len(e) == 2 ==> r == pathJoin(e[0], e[1])
why "path arithmetic"
trusted func strings.TrimSuffix(s, x) (r)
ensures hasSuffix(s, x) ==> r == s[0:len(s) - len(x)]
ensures !hasSuffix(s, x) ==> r == s
why "as documented"

func cmd.writeToFile(data, filePath) (err)
modifies ghost fsData, ghost fsPos, ghost fsOpen, ghost fsFails, ghost fsTouched
ensures [C19,C18] err == nil ==> fsData[filePath] == bytes(data)
ensures [C19,C18] err == nil ==> fsFails == old(fsFails)
ensures [C18] err != nil ==> fsFails > old(fsFails)
ensures [C18] forall q: string {fsData[q]} :: q != filePath ==> fsData[q] == old(fsData[q])
nopanic [C19,C18]

pred artefact(args: []string, p: string) = p == pathJoin(cmd.outputDir, pathBase(args[0])[0:len(pathBase(args[0])) - len(pathExt(pathBase(args[0])))] + ".json")
pred dirMade() = calls("os.MkdirAll") == 1 && arg("os.MkdirAll", 0) == cmd.outputDir && ret("os.MkdirAll", 0) == nil
pred wasRead(args: []string) = calls("os.ReadFile") == 1 && arg("os.ReadFile", 0) == args[0] && ret("os.ReadFile", 1) == nil
pred parseTried() = calls("kfparser.ParseKF") == 1 && arg("kfparser.ParseKF", 0) == bytes(ret("os.ReadFile", 0)) && isnil(arg("kfparser.ParseKF", 1))
  && arg("kfparser.ParseKF", 2) == ite(cmd.trace, kfparser.Trace, kfparser.Default)
pred parsed() = parseTried() && ret("kfparser.ParseKF", 1) == nil
pred jsonTried() = calls("json.MarshalIndent") == 1 && arg("json.MarshalIndent", 0) == ret("kfparser.ParseKF", 0) && arg("json.MarshalIndent", 1) == "" && arg("json.MarshalIndent", 2) == "  "
pred serialised() = jsonTried() && ret("json.MarshalIndent", 1) == nil
pred nothingDone() = fsTouched == old(fsTouched) && fsData == old(fsData)

// the Run function of the root command
func cmd.command.Run(c, args) ()
observe os.MkdirAll, os.ReadFile, kfparser.ParseKF, json.MarshalIndent
modifies ghost fsData, ghost fsPos, ghost fsOpen, ghost fsFails, ghost fsTouched, ghost lexHears, ghost parHears
freshIn schema.declCtx
ensures [C18] cmd.showVersion ==> nothingDone() && calls("os.MkdirAll") == 0 && calls("os.ReadFile") == 0 && calls("kfparser.ParseKF") == 0
ensures [C18] !cmd.showVersion ==> len(args) == 1 && dirMade() && wasRead(args) && parsed() && serialised()
ensures [C18,C19] !cmd.showVersion ==> fsFails == old(fsFails)
ensures [C18,C19] !cmd.showVersion ==> calls("json.MarshalIndent") == 1 && forall p: string :: artefact(args, p) ==> fsData[p] == bytes(ret("json.MarshalIndent", 0))
ensures [C18] !cmd.showVersion ==> forall p: string, q: string {artefact(args, p), fsData[q]} :: artefact(args, p) && q != p ==> fsData[q] == old(fsData[q])
exits [C18] !cmd.showVersion && 2 <= code && code <= 7
exits [C18] (code == 2) == (len(args) != 1)
exits [C18] code == 2 ==> calls("os.MkdirAll") == 0 && calls("os.ReadFile") == 0
exits [C18] code == 3 ==> calls("os.MkdirAll") == 1 && arg("os.MkdirAll", 0) == cmd.outputDir && ret("os.MkdirAll", 0) != nil
exits [C18] code > 3 ==> dirMade()
exits [C18] code == 4 ==> calls("os.ReadFile") == 1 && arg("os.ReadFile", 0) == args[0] && ret("os.ReadFile", 1) != nil
exits [C18] code > 4 ==> wasRead(args)
exits [C18] code == 5 ==> parseTried() && ret("kfparser.ParseKF", 1) != nil
exits [C18] code > 5 ==> parsed()
exits [C18] code == 6 ==> jsonTried() && ret("json.MarshalIndent", 1) != nil
exits [C18] code > 6 ==> serialised()
exits [C18] code == 7 ==> fsFails > old(fsFails)
exits [C18] code < 7 ==> nothingDone()
exits [C18] code == 7 ==> forall p: string, q: string {artefact(args, p), fsData[q]} :: artefact(args, p) && q != p ==> fsData[q] == old(fsData[q])
nopanic [C18]

func cmd.Execute() ()
observe cobra.(*Command).Execute
ensures [C18] calls("cobra.(*Command).Execute") == 1 && arg("cobra.(*Command).Execute", 0) == cmd.rootCmd && ret("cobra.(*Command).Execute", 0) == nil
exits [C18] code == 1 && calls("cobra.(*Command).Execute") == 1 && ret("cobra.(*Command).Execute", 0) != nil
nopanic [C18]

// the package initialiser declares the documented flags
func cmd.init() ()
observe pflag.(*FlagSet).BoolVarP, pflag.(*FlagSet).StringVarP
ensures [C18] called("pflag.(*FlagSet).BoolVarP", 1, addr(cmd.trace), 2, "trace", 3, "t", 4, false)
ensures [C18] called("pflag.(*FlagSet).BoolVarP", 1, addr(cmd.showVersion), 2, "version", 3, "v", 4, false)
ensures [C18] called("pflag.(*FlagSet).StringVarP", 1, addr(cmd.outputDir), 2, "output", 3, "o", 4, "./build")
ensures [C18] calls("pflag.(*FlagSet).BoolVarP") == 2 && calls("pflag.(*FlagSet).StringVarP") == 1

func main.main() ()
observe cmd.Execute
ensures [C18] calls("cmd.Execute") == 1
exits [C18] calls("cmd.Execute") == 1
