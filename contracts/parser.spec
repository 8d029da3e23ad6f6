// The parse entry point: C14, C15, C17 and the end of the chain for C01-C13.

// What the antlr runtime makes of a text.
fun treeOf(s: string): *kfgrammar.Source_unitContext
fun synCount(s: string): int
fun synErr(s: string, i: int): error
pred parserPanics(s: string)
axiom synCountPos = forall s: string {synCount(s)} :: synCount(s) >= 0
axiom synErrIs = forall s: string, i: int {synErr(s, i)} :: errIs(synErr(s, i), utils.ErrInvalidSyntax) && synErr(s, i) != nil

fun streamText(r: *antlr.InputStream): string
fun baseText(r: *antlr.BaseLexer): string
fun tokText(r: *antlr.CommonTokenStream): string
fun inputText(r: *antlr.BaseParser): string
fun isLexRec(r: *antlr.BaseRecognizer): bool
ghost lexHears: []antlr.ErrorListener
ghost parHears: []antlr.ErrorListener

trusted func antlr.NewInputStream(s) (r)
ensures fresh(r) && r != nil
ensures streamText(r) == s
why "antlr runtime: an input stream over the text"

trusted func antlr.NewBaseLexer(in) (r)
requires isType(in, *antlr.InputStream)
modifies ghost lexHears
ensures fresh(r) && r != nil && fresh(r.BaseRecognizer) && r.BaseRecognizer != nil && isLexRec(r.BaseRecognizer)
ensures baseText(r) == streamText(as(in, *antlr.InputStream))
ensures len(lexHears) == 1 && !isType(lexHears[0], *utils.ErrorListener)
why "antlr runtime: a lexer over the stream, which reports to the console"

// the numbers an automaton was made from; lexerTable is what the decision
// procedure in lexer.go proves of the documented lexer (tokens.txt) only
fun tableOf(a: *antlr.ATN): []int32
fun simATN(r: *antlr.LexerATNSimulator): *antlr.ATN
pred lexerTable(t: []int32)
trusted func antlr.NewATNDeserializer(options) (r)
ensures fresh(r) && r != nil
why "antlr runtime"
trusted func antlr.(*ATNDeserializer).Deserialize(d, data) (r)
ensures fresh(r) && r != nil && tableOf(r) == data
why "antlr runtime: the automaton the numbers describe"
trusted func antlr.NewDFA(state, decision) (r)
ensures fresh(r) && r != nil
why "antlr runtime"
trusted func antlr.NewPredictionContextCache() (r)
ensures fresh(r) && r != nil
why "antlr runtime"
trusted func antlr.NewLexerATNSimulator(recog, atn, dfas, cache) (r)
requires isType(recog, *kfgrammar.KuneiformLexer)
ensures fresh(r) && r != nil && simATN(r) == atn
why "antlr runtime: interprets the automaton"

func kfgrammar.NewKuneiformLexer(in) (r)
requires isType(in, *antlr.InputStream)
modifies ghost lexHears
ensures [C14,C15,C26] fresh(r) && r != nil && r.BaseLexer != nil && r.BaseLexer.BaseRecognizer != nil && isLexRec(r.BaseLexer.BaseRecognizer)
ensures [C14,C15,C26] baseText(r.BaseLexer) == streamText(as(in, *antlr.InputStream))
ensures [C14,C15,C26] len(lexHears) == 1 && !isType(lexHears[0], *utils.ErrorListener)
ensures [C26] isType(r.BaseLexer.Interpreter, *antlr.LexerATNSimulator) && lexerTable(tableOf(simATN(as(r.BaseLexer.Interpreter, *antlr.LexerATNSimulator))))

trusted func antlr.NewCommonTokenStream(lexer, channel) (r)
requires isType(lexer, *kfgrammar.KuneiformLexer) && channel == 0
ensures fresh(r) && r != nil
ensures tokText(r) == baseText(as(lexer, *kfgrammar.KuneiformLexer).BaseLexer)
why "antlr runtime: tokens of the default channel"

trusted func antlr.NewBaseParser(in) (r)
requires isType(in, *antlr.CommonTokenStream)
modifies ghost parHears
ensures fresh(r) && r != nil && fresh(r.BaseRecognizer) && r.BaseRecognizer != nil && !isLexRec(r.BaseRecognizer)
ensures inputText(r) == tokText(as(in, *antlr.CommonTokenStream))
ensures len(parHears) == 1 && !isType(parHears[0], *utils.ErrorListener)
why "antlr runtime: a parser over the tokens, which reports to the console"
trusted func antlr.NewParserATNSimulator(p, atn, dfas, cache) (r)
requires isType(p, *kfgrammar.KuneiformParser)
ensures fresh(r) && r != nil
why "antlr runtime: prediction with the automaton"

func kfgrammar.NewKuneiformParser(in) (r)
requires isType(in, *antlr.CommonTokenStream)
modifies ghost parHears
ensures [C14,C15] fresh(r) && r != nil && r.BaseParser != nil && r.BaseParser.BaseRecognizer != nil && !isLexRec(r.BaseParser.BaseRecognizer)
ensures [C14,C15] inputText(r.BaseParser) == tokText(as(in, *antlr.CommonTokenStream))
ensures [C14,C15] len(parHears) == 1 && !isType(parHears[0], *utils.ErrorListener)

trusted func antlr.(*BaseRecognizer).RemoveErrorListeners(b) ()
requires b != nil
modifies ghost lexHears, ghost parHears
ensures isLexRec(b) ==> len(lexHears) == 0 && parHears == old(parHears)
ensures !isLexRec(b) ==> len(parHears) == 0 && lexHears == old(lexHears)
why "antlr runtime"

trusted func antlr.(*BaseRecognizer).AddErrorListener(b, l) ()
requires b != nil
modifies ghost lexHears, ghost parHears
ensures isLexRec(b) ==> len(lexHears) == old(len(lexHears)) + 1 && parHears == old(parHears) && lexHears[old(len(lexHears))] == l && forall i: int :: 0 <= i && i < old(len(lexHears)) ==> lexHears[i] == old(lexHears[i])
ensures !isLexRec(b) ==> len(parHears) == old(len(parHears)) + 1 && lexHears == old(lexHears) && parHears[old(len(parHears))] == l && forall i: int :: 0 <= i && i < old(len(parHears)) ==> parHears[i] == old(parHears[i])
why "antlr runtime"

pred recordedAll(es: []error, n: int, s: string) = len(es) == n + synCount(s) && forall i: int {es[i]} :: 0 <= i && i < synCount(s) ==> es[n + i] == synErr(s, i)

trusted func kfgrammar.(*KuneiformParser).Source_unit(p) (r)
requires [C14,C15,C17,C26] len(lexHears) == 1 && len(parHears) == 1 && lexHears[0] == parHears[0] && isType(lexHears[0], *utils.ErrorListener)
let el = as(lexHears[0], *utils.ErrorListener)
let s = inputText(p.BaseParser)
modifies el.ErrorList
result r = treeOf(s)
ensures treeOf(s) != nil
ensures synCount(s) == 0 ==> conf_Source_unit(treeOf(s))
ensures recordedAll(el.ErrorList, old(len(el.ErrorList)), s)
ensures forall i: int :: 0 <= i && i < old(len(el.ErrorList)) ==> el.ErrorList[i] == old(el.ErrorList[i])
ensures !parserPanics(s)
exsures parserPanics(s) && recordedAll(el.ErrorList, old(len(el.ErrorList)), s)
exsures forall i: int :: 0 <= i && i < old(len(el.ErrorList)) ==> el.ErrorList[i] == old(el.ErrorList[i])
why "generated parser over the antlr runtime: reports each lexical and syntactic error once, in order, to every listener, and otherwise builds a tree of the grammar (C25, C26)"

// a tree whose modifiers conflict, or with a second initialisation block
pred badTree(n: node) opaque = cnt(n, Init_decl) > 1 || exists i: int {kid(n, Action_decl, i)} :: 0 <= i && i < cnt(n, Action_decl) && dupActionAttr(kid(n, Action_decl, i))

func kfparser.ParseKF(input, errorListener, mode) (result, err)
requires errorListener != nil ==> allocated(errorListener)
let n0 = ite(errorListener == nil, 0, len(errorListener.ErrorList))
let tree = treeOf(input)
reveal buildPanic, attrPanic, badTree, dupActionAttr, areActions12
modifies errorListener.ErrorList, ghost lexHears, ghost parHears
freshIn schema.declCtx
ensures [C14] errorListener != nil ==> (err == nil <==> len(errorListener.ErrorList) == 0)
ensures [C14] err == nil ==> isType(result, *schema.Schema)
ensures [C14,C15,C26] err == nil ==> synCount(input) == 0 && !parserPanics(input)
ensures [C14,C15] err != nil ==> isType(err, *utils.ErrorList) && len(*as(err, *utils.ErrorList)) > 0
ensures [C14,C17,C07] err != nil && n0 == 0 ==> synCount(input) > 0 || parserPanics(input) || badTree(tree) || (isType(result, *schema.Schema) && broken(*as(result, *schema.Schema)))
ensures [C14,C12,C17] err == nil ==> !badTree(tree)
ensures [C15,C17,C26] synCount(input) > 0 && !parserPanics(input) ==> err != nil && recordedAll(*as(err, *utils.ErrorList), n0, input)
ensures [C15] synCount(input) > 0 ==> err != nil && len(*as(err, *utils.ErrorList)) > n0 && (*as(err, *utils.ErrorList))[n0] == synErr(input, 0)
ensures [C15] errorListener != nil && err != nil ==> errorListener.ErrorList == *as(err, *utils.ErrorList)
ensures [C08,C12,C07] err != nil && n0 == 0 && synCount(input) == 0 && !parserPanics(input) ==> len(*as(err, *utils.ErrorList)) == 1
  && (buildPanic(box((*as(err, *utils.ErrorList))[0]), tree) || (isType(result, *schema.Schema) && rightBlame(*as(result, *schema.Schema), (*as(err, *utils.ErrorList))[0])))
ensures [C13,C17] err == nil ==> as(result, *schema.Schema).Name == text(kid(kid(tree, Database_directive), Database_name)) && as(result, *schema.Schema).Owner == ""
ensures [C09,C17,C01,C02,C03] err == nil ==> areTables09(as(result, *schema.Schema).Tables, tree)
ensures [C10,C17,C01,C02] err == nil ==> areTables10(as(result, *schema.Schema).Tables, tree)
ensures [C11,C17,C01,C04,C05,C06] err == nil ==> areActions11(as(result, *schema.Schema).Actions, tree)
ensures [C11,C12,C17] err == nil ==> areActions12(as(result, *schema.Schema).Actions, tree) && cnt(tree, Init_decl) <= 1
ensures [C13,C17,C01,C06] err == nil ==> areExts(as(result, *schema.Schema).Extensions, tree)
ensures [C01] err == nil ==> uniqueNames(*as(result, *schema.Schema))
ensures [C02] err == nil ==> resolved(*as(result, *schema.Schema))
ensures [C03] err == nil ==> !anyBadAttr(as(result, *schema.Schema).Tables)
ensures [C04] err == nil ==> callsDeclared(*as(result, *schema.Schema))
ensures [C05] err == nil ==> argsInScope(*as(result, *schema.Schema))
ensures [C06] err == nil ==> wellFormed(*as(result, *schema.Schema))
nopanic [C14]

pred uniqueNames(s: schema.Schema) = !dupExt(s.Extensions) && !dupTable(s.Tables) && !dupAction(s.Actions) && !anyDupCol(s.Tables) && !anyDupIdx(s.Tables) && !anyDupAttr(s.Tables) && !anyDupParam(s.Actions) && !anyDupTrigger(s.Tables)
pred resolved(s: schema.Schema) = !anyIdxDangling(s.Tables) && !anyFkTableMissing(s.Tables) && !anyFkChildBad(s.Tables) && !anyFkParentBad(s.Tables)
pred callsDeclared(s: schema.Schema) = !anyCallBad(actionNames(s.Actions), s.Actions) && !anyExtBad(extNames(s.Extensions), s.Actions)
pred argsInScope(s: schema.Schema) = !anyArgsBad(s.Actions) && !anyRecvBad(s.Actions)
pred wellFormed(s: schema.Schema) = !anyParseBad(s.Actions) && !anySqlBad(s.Actions)

func kfparser.Parse(input) (result, err)
let tree = treeOf(input)
modifies ghost lexHears, ghost parHears
freshIn schema.declCtx
ensures [C14] err == nil ==> isType(result, *schema.Schema)
ensures [C14,C15,C26] err == nil ==> synCount(input) == 0 && !parserPanics(input)
ensures [C14,C15] err != nil ==> isType(err, *utils.ErrorList) && len(*as(err, *utils.ErrorList)) > 0
ensures [C14,C17,C07] err != nil ==> synCount(input) > 0 || parserPanics(input) || badTree(tree) || (isType(result, *schema.Schema) && broken(*as(result, *schema.Schema)))
ensures [C14,C12,C17] err == nil ==> !badTree(tree)
ensures [C15,C17,C26] synCount(input) > 0 && !parserPanics(input) ==> err != nil && recordedAll(*as(err, *utils.ErrorList), 0, input)
ensures [C15] synCount(input) > 0 ==> err != nil && (*as(err, *utils.ErrorList))[0] == synErr(input, 0)
ensures [C08,C12,C07] err != nil && synCount(input) == 0 && !parserPanics(input) ==> len(*as(err, *utils.ErrorList)) == 1
  && (buildPanic(box((*as(err, *utils.ErrorList))[0]), tree) || (isType(result, *schema.Schema) && rightBlame(*as(result, *schema.Schema), (*as(err, *utils.ErrorList))[0])))
ensures [C13,C17] err == nil ==> as(result, *schema.Schema).Name == text(kid(kid(tree, Database_directive), Database_name)) && as(result, *schema.Schema).Owner == ""
ensures [C09,C17,C01,C02,C03] err == nil ==> areTables09(as(result, *schema.Schema).Tables, tree)
ensures [C10,C17,C01,C02] err == nil ==> areTables10(as(result, *schema.Schema).Tables, tree)
ensures [C11,C17,C01,C04,C05,C06] err == nil ==> areActions11(as(result, *schema.Schema).Actions, tree)
ensures [C11,C12,C17] err == nil ==> areActions12(as(result, *schema.Schema).Actions, tree) && cnt(tree, Init_decl) <= 1
ensures [C13,C17,C01,C06] err == nil ==> areExts(as(result, *schema.Schema).Extensions, tree)
ensures [C01] err == nil ==> uniqueNames(*as(result, *schema.Schema))
ensures [C02] err == nil ==> resolved(*as(result, *schema.Schema))
ensures [C03] err == nil ==> !anyBadAttr(as(result, *schema.Schema).Tables)
ensures [C04] err == nil ==> callsDeclared(*as(result, *schema.Schema))
ensures [C05] err == nil ==> argsInScope(*as(result, *schema.Schema))
ensures [C06] err == nil ==> wellFormed(*as(result, *schema.Schema))
nopanic [C14]
