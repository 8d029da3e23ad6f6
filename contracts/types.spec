// keyword lookups (C21)
func schema.GetColumnType(col) (r, err)
ensures [C21] lower(col) == "text" ==> r == "text" && err == nil
ensures [C21] lower(col) == "int" ==> r == "int" && err == nil
ensures [C21] lower(col) == "blob" ==> r == "blob" && err == nil
ensures [C21] lower(col) == "null" ==> r == "null" && err == nil
ensures [C21] lower(col) != "text" && lower(col) != "int" && lower(col) != "blob" && lower(col) != "null" ==> r == "" && err != nil
nopanic [C21]

func schema.GetAttributeType(attr) (r, err)
let k = lower(attr)
ensures [C21] k == "primary" ==> r == "primary_key" && err == nil
ensures [C21] k == "unique" ==> r == "unique" && err == nil
ensures [C21] k == "notnull" ==> r == "not_null" && err == nil
ensures [C21] k == "default" ==> r == "default" && err == nil
ensures [C21] k == "min" ==> r == "min" && err == nil
ensures [C21] k == "max" ==> r == "max" && err == nil
ensures [C21] k == "minlen" ==> r == "min_length" && err == nil
ensures [C21] k == "maxlen" ==> r == "max_length" && err == nil
ensures [C21] !(k == "primary" || k == "unique" || k == "notnull" || k == "default" || k == "min" || k == "max" || k == "minlen" || k == "maxlen") ==> r == "" && err != nil
nopanic [C21]

func schema.GetIndexType(idxType) (r, err)
let k = lower(idxType)
ensures [C21] k == "index" ==> r == "btree" && err == nil
ensures [C21] k == "unique" ==> r == "unique_btree" && err == nil
ensures [C21] k == "primary" ==> r == "primary" && err == nil
ensures [C21] !(k == "index" || k == "unique" || k == "primary") ==> r == "" && err != nil
nopanic [C21]
