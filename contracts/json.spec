// The JSON form: C20.  The standard encoder is a function of the value it is
// given (observed, not interpreted); the key of every field is decided by the
// declarations (@tags).

func schema.(*Schema).ToJSON(s) (b, err)
requires s != nil
observe json.MarshalIndent
ensures [C20] calls("json.MarshalIndent") == 1
ensures [C20] (isType(arg("json.MarshalIndent", 0), *schema.Schema) && as(arg("json.MarshalIndent", 0), *schema.Schema) == s) || arg("json.MarshalIndent", 0) == box(*s)
ensures [C20] arg("json.MarshalIndent", 1) == "" && arg("json.MarshalIndent", 2) == "  "
ensures [C20] ret("json.MarshalIndent", 1) == nil ==> err == nil && bytes(b) == bytes(ret("json.MarshalIndent", 0))
ensures [C20] ret("json.MarshalIndent", 1) != nil ==> err != nil
frame [C20]
nopanic [C20]

func schema.(*Extension).ToJSON(e) (b, err)
requires e != nil
observe json.MarshalIndent
ensures [C20] calls("json.MarshalIndent") == 1
ensures [C20] (isType(arg("json.MarshalIndent", 0), *schema.Extension) && as(arg("json.MarshalIndent", 0), *schema.Extension) == e) || arg("json.MarshalIndent", 0) == box(*e)
ensures [C20] arg("json.MarshalIndent", 1) == "" && arg("json.MarshalIndent", 2) == "  "
ensures [C20] ret("json.MarshalIndent", 1) == nil ==> err == nil && bytes(b) == bytes(ret("json.MarshalIndent", 0))
ensures [C20] ret("json.MarshalIndent", 1) != nil ==> err != nil
frame [C20]
nopanic [C20]

func schema.(*Table).ToJSON(t) (b, err)
requires t != nil
observe json.MarshalIndent
ensures [C20] calls("json.MarshalIndent") == 1
ensures [C20] (isType(arg("json.MarshalIndent", 0), *schema.Table) && as(arg("json.MarshalIndent", 0), *schema.Table) == t) || arg("json.MarshalIndent", 0) == box(*t)
ensures [C20] arg("json.MarshalIndent", 1) == "" && arg("json.MarshalIndent", 2) == "  "
ensures [C20] ret("json.MarshalIndent", 1) == nil ==> err == nil && bytes(b) == bytes(ret("json.MarshalIndent", 0))
ensures [C20] ret("json.MarshalIndent", 1) != nil ==> err != nil
frame [C20]
nopanic [C20]

func schema.(*Column).ToJSON(c) (b, err)
requires c != nil
observe json.MarshalIndent
ensures [C20] calls("json.MarshalIndent") == 1
ensures [C20] (isType(arg("json.MarshalIndent", 0), *schema.Column) && as(arg("json.MarshalIndent", 0), *schema.Column) == c) || arg("json.MarshalIndent", 0) == box(*c)
ensures [C20] arg("json.MarshalIndent", 1) == "" && arg("json.MarshalIndent", 2) == "  "
ensures [C20] ret("json.MarshalIndent", 1) == nil ==> err == nil && bytes(b) == bytes(ret("json.MarshalIndent", 0))
ensures [C20] ret("json.MarshalIndent", 1) != nil ==> err != nil
frame [C20]
nopanic [C20]

func schema.(*Attribute).ToJSON(a) (b, err)
requires a != nil
observe json.MarshalIndent
ensures [C20] calls("json.MarshalIndent") == 1
ensures [C20] (isType(arg("json.MarshalIndent", 0), *schema.Attribute) && as(arg("json.MarshalIndent", 0), *schema.Attribute) == a) || arg("json.MarshalIndent", 0) == box(*a)
ensures [C20] arg("json.MarshalIndent", 1) == "" && arg("json.MarshalIndent", 2) == "  "
ensures [C20] ret("json.MarshalIndent", 1) == nil ==> err == nil && bytes(b) == bytes(ret("json.MarshalIndent", 0))
ensures [C20] ret("json.MarshalIndent", 1) != nil ==> err != nil
frame [C20]
nopanic [C20]

func schema.(*Index).ToJSON(i) (b, err)
requires i != nil
observe json.MarshalIndent
ensures [C20] calls("json.MarshalIndent") == 1
ensures [C20] (isType(arg("json.MarshalIndent", 0), *schema.Index) && as(arg("json.MarshalIndent", 0), *schema.Index) == i) || arg("json.MarshalIndent", 0) == box(*i)
ensures [C20] arg("json.MarshalIndent", 1) == "" && arg("json.MarshalIndent", 2) == "  "
ensures [C20] ret("json.MarshalIndent", 1) == nil ==> err == nil && bytes(b) == bytes(ret("json.MarshalIndent", 0))
ensures [C20] ret("json.MarshalIndent", 1) != nil ==> err != nil
frame [C20]
nopanic [C20]

func schema.(*ForeignKey).ToJSON(f) (b, err)
requires f != nil
observe json.MarshalIndent
ensures [C20] calls("json.MarshalIndent") == 1
ensures [C20] (isType(arg("json.MarshalIndent", 0), *schema.ForeignKey) && as(arg("json.MarshalIndent", 0), *schema.ForeignKey) == f) || arg("json.MarshalIndent", 0) == box(*f)
ensures [C20] arg("json.MarshalIndent", 1) == "" && arg("json.MarshalIndent", 2) == "  "
ensures [C20] ret("json.MarshalIndent", 1) == nil ==> err == nil && bytes(b) == bytes(ret("json.MarshalIndent", 0))
ensures [C20] ret("json.MarshalIndent", 1) != nil ==> err != nil
frame [C20]
nopanic [C20]

func schema.(*Action).ToJSON(a) (b, err)
requires a != nil
observe json.MarshalIndent
ensures [C20] calls("json.MarshalIndent") == 1
ensures [C20] (isType(arg("json.MarshalIndent", 0), *schema.Action) && as(arg("json.MarshalIndent", 0), *schema.Action) == a) || arg("json.MarshalIndent", 0) == box(*a)
ensures [C20] arg("json.MarshalIndent", 1) == "" && arg("json.MarshalIndent", 2) == "  "
ensures [C20] ret("json.MarshalIndent", 1) == nil ==> err == nil && bytes(b) == bytes(ret("json.MarshalIndent", 0))
ensures [C20] ret("json.MarshalIndent", 1) != nil ==> err != nil
frame [C20]
nopanic [C20]

