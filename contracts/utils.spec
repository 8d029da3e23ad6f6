// error collections (C16) and the syntax error recorder (C15)

func utils.(*ErrorList).Add(e, err) ()
requires e != nil
modifies *e
ensures [C16,C15,C14] len(*e) == old(len(*e)) + 1
ensures [C16,C15,C14] (*e)[old(len(*e))] == err
ensures [C16,C15,C14] forall i: int :: 0 <= i && i < old(len(*e)) ==> (*e)[i] == old((*e)[i])
nopanic [C16,C14]

func utils.(*ErrorList).Error(e) (r)
requires e != nil
requires forall i: int :: 0 <= i && i < len(*e) ==> (*e)[i] != nil
ensures [C16] len(*e) == 0 ==> r == "no errors"
ensures [C16] len(*e) == 1 ==> r == errMsg((*e)[0])
ensures [C16] len(*e) > 1 ==> r == errMsg((*e)[0]) + " (with " + itoa(len(*e)-1) + "+ errors)"
nopanic [C16]

func utils.(*ErrorList).Err(e) (r)
requires e != nil
ensures [C16,C14,C15] len(*e) == 0 ==> r == nil
ensures [C16,C14,C15] len(*e) > 0 ==> isType(r, *utils.ErrorList) && as(r, *utils.ErrorList) == e
nopanic [C16,C14]

func utils.(*ErrorList).Unwrap(e) (r)
requires e != nil
ensures [C16,C15] len(*e) == 0 ==> r == nil
ensures [C16,C15] len(*e) > 0 ==> r == (*e)[0]
nopanic [C16]

func utils.NewErrorListener() (l)
ensures [C16,C14,C15,C17] l != nil && fresh(l)
ensures [C16,C14,C15,C17] len(l.ErrorList) == 0
nopanic [C16,C14]

func utils.(*ErrorListener).SyntaxError(s, recognizer, offendingSymbol, line, column, msg, e) ()
requires s != nil
modifies s.ErrorList
ensures [C15,C26] len(s.ErrorList) == old(len(s.ErrorList)) + 1
ensures [C15,C26] errIs(s.ErrorList[old(len(s.ErrorList))], utils.ErrInvalidSyntax)
ensures [C15] errMsg(s.ErrorList[old(len(s.ErrorList))]) == errMsg(utils.ErrInvalidSyntax) + ": line " + itoa(line) + ":" + itoa(column) + " " + msg
ensures [C15] forall i: int :: 0 <= i && i < old(len(s.ErrorList)) ==> s.ErrorList[i] == old(s.ErrorList[i])
nopanic [C15]

func utils.(*ErrorListener).ReportAmbiguity(s, a1, a2, a3, a4, a5, a6, a7) ()
requires s != nil
ensures [C16] len(s.ErrorList) == old(len(s.ErrorList))
frame [C16]
nopanic [C16]

func utils.(*ErrorListener).ReportAttemptingFullContext(s, a1, a2, a3, a4, a5, a6) ()
requires s != nil
ensures [C16] len(s.ErrorList) == old(len(s.ErrorList))
frame [C16]
nopanic [C16]

func utils.(*ErrorListener).ReportContextSensitivity(s, a1, a2, a3, a4, a5, a6) ()
requires s != nil
ensures [C16] len(s.ErrorList) == old(len(s.ErrorList))
frame [C16]
nopanic [C16]

func utils.(*ErrorListener).Error(s) (r)
requires s != nil
requires forall i: int :: 0 <= i && i < len(s.ErrorList) ==> s.ErrorList[i] != nil
ensures [C16] len(s.ErrorList) == 0 ==> r == "no errors"
ensures [C16] len(s.ErrorList) == 1 ==> r == errMsg(s.ErrorList[0])
ensures [C16] len(s.ErrorList) > 1 ==> r == errMsg(s.ErrorList[0]) + " (with " + itoa(len(s.ErrorList)-1) + "+ errors)"
nopanic [C16]
