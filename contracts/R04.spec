property R04
alias ddla = github.com/choria-io/go-choria/providers/agent/mcorpc/ddl/agent
alias ddlc = github.com/choria-io/go-choria/providers/agent/mcorpc/ddl/common
alias val = github.com/choria-io/go-choria/validator
alias shell = github.com/choria-io/go-choria/validator/shellsafe
alias rgx = github.com/choria-io/go-choria/validator/regex
alias v4 = github.com/choria-io/go-choria/validator/ipv4
alias v6 = github.com/choria-io/go-choria/validator/ipv6
alias ipa = github.com/choria-io/go-choria/validator/ipaddress

pure (reflect.Value).Kind reflect.ValueOf
fixed ddlc.InputType*
# decided by R05
pure (*ddlc.InputItem).ValidateValue (*ddlc.InputItem).ValidateStringValue shell.Validate rgx.ValidateString v4.ValidateString v6.ValidateString ipa.ValidateString

def kindOf(v) = reflect.ValueOf(v).Kind()
def wholeInt(v) = in(kindOf(v), reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64)
def wholeFloat(v) = typeis(v, "float64") && unbox(v, "float64") == conv(conv(unbox(v, "float64"), "int"), "float64")
def typed(t, v) = (in(t, "integer", "int") ==> (wholeInt(v) || wholeFloat(v))) && (t == "number" ==> (wholeInt(v) || in(kindOf(v), reflect.Float32, reflect.Float64))) && (t == "float" ==> kindOf(v) == reflect.Float64) && (t == "string" ==> kindOf(v) == reflect.String) && (t == "boolean" ==> kindOf(v) == reflect.Bool) && (in(t, "hash", "Hash") ==> kindOf(v) == reflect.Map) && (in(t, "array", "Array") ==> (kindOf(v) == reflect.Array || kindOf(v) == reflect.Slice)) && (t == "list" ==> typeis(v, "string"))
def knownType(t) = in(t, "integer", "int", "number", "float", "string", "boolean", "list", "hash", "array", "Hash", "Array")
def named(c) = in(c, "shellsafe", "ipv4address", "ipv6address", "ipaddress")
def contentOK(c, s) = (c == "shellsafe" ==> r1(shell.Validate(s)) == nil) && (c == "ipv4address" ==> r1(v4.ValidateString(s)) == nil) && (c == "ipv6address" ==> r1(v6.ValidateString(s)) == nil) && (c == "ipaddress" ==> r1(ipa.ValidateString(s)) == nil) && ((!named(c) && !r0(regexp.MatchString("^[a-z]", c)) && r1(regexp.MatchString("^[a-z]", c)) == nil) ==> r1(rgx.ValidateString(s, c)) == nil)

verify (i *ddlc.InputItem) ValidateValue(v) (w, err)
  modifies nothing
  def t() = strings.ToLower(i.Type)
  ensures only known types: err == nil ==> knownType(t())
  ensures values have the declared type: err == nil ==> typed(t(), v)
  ensures strings have the declared length: (err == nil && t() == "string" && i.MaxLength > 0) ==> len(unbox(v, "string")) <= i.MaxLength
  ensures strings pass the declared validation: (err == nil && t() == "string" && i.Validation != "") ==> contentOK(i.Validation, unbox(v, "string"))
  ensures lists hold a listed value: (err == nil && t() == "list") ==> exists(k, 0, len(i.Enum), i.Enum[k] == unbox(v, "string"))
  cover string: err == nil && t() == "string" && i.Validation != ""
  cover list: err == nil && t() == "list"

verify (i *ddlc.InputItem) ValidateStringValue(s) (v, w, err)
  opaque ddlc.ValToDDLType
  ghost seen bool
  ghost sv any
  oncall (*ddlc.InputItem).ValidateValue(p, x) (w2, e): set seen = p == i && e == nil
  oncall (*ddlc.InputItem).ValidateValue(p, x) (w2, e): set sv = x
  oncall ddlc.ValToDDLType(t, x): assert the value given is converted to the declared type: t == i.Type && x == s
  ensures only converted values that are valid: err == nil ==> (seen && sv == v)

extern sort.Strings(s)
  ensures len(s) == old(len(s))
  ensures forall(i, 0, len(s), exists(j, 0, len(s), old(s[j]) == s[i])) && forall(j, 0, len(s), exists(i, 0, len(s), s[i] == old(s[j])))

verify (a *ddla.Action) InputNames() (names)
  modular
  modifies nothing
  ensures only declared inputs: forall(i, 0, len(names), has(a.Input, names[i]))
  ensures every declared input: forall(k, "string", has(a.Input, k) ==> exists(i, 0, len(names), names[i] == k))

def ddlOK(i, v) = r1(i.ValidateValue(v)) == nil
verify (a *ddla.Action) ValidateInputValue(k, v) (w, err)
  modular
  modifies nothing
  ensures only declared inputs with valid values: (err == nil) == (has(a.Input, k) && ddlOK(a.Input[k], v))

verify (a *ddla.Action) ValidateRequestData(data) (w, err)
  ghost bad string
  keeps bad == ""
  oncall (*ddla.Action).ValidateInputValue(_, k, v) (w2, e): set bad = ite(e != nil && bad == "", k, bad)
  oncall fmt.Errorf(f, args): maybe assert the error names the offending input: bad == "" || args[0] == box(bad, "string")
  requires forall(k, "string", has(a.Input, k) ==> a.Input[k] != nil)
  ensures required inputs are given: err == nil ==> forall(k, "string", (has(a.Input, k) && !a.Input[k].Optional) ==> has(data, k))
  ensures only declared inputs are given: err == nil ==> forall(k, "string", has(data, k) ==> has(a.Input, k))
  ensures every value is valid: err == nil ==> forall(k, "string", has(data, k) ==> ddlOK(a.Input[k], data[k]))
  ensures valid data is accepted: (forall(k, "string", (has(a.Input, k) && !a.Input[k].Optional) ==> has(data, k)) && forall(k, "string", has(data, k) ==> has(a.Input, k) && ddlOK(a.Input[k], data[k]))) ==> err == nil
  ensures the data is not changed by checking it: forall(k, "string", k != "process_results" ==> (has(data, k) == old(has(data, k)) && data[k] == old(data[k])))
  cover valid: err == nil && has(data, "x")

verify (a *ddla.Action) ValidateAndConvertToDDLTypes(args) (res, w, err)
  requires forall(k, "string", has(a.Input, k) ==> a.Input[k] != nil)
  ensures only declared inputs are produced: err == nil ==> forall(k, "string", has(res, k) ==> has(a.Input, k))
  ensures only declared inputs are taken: err == nil ==> forall(k, "string", has(args, k) ==> (has(a.Input, strings.ToLower(k)) && r2(a.Input[strings.ToLower(k)].ValidateStringValue(args[k])) == nil))
  ensures required inputs are given: err == nil ==> forall(k, "string", (has(a.Input, k) && !a.Input[k].Optional) ==> has(res, k))
  ensures inputs that were not given have their default: err == nil ==> forall(k, "string", (has(res, k) && forall(g, "string", has(args, g) ==> strings.ToLower(g) != k)) ==> (a.Input[k].Default != nil && res[k] == a.Input[k].Default))
  ensures defaults are set: err == nil ==> forall(k, "string", (has(a.Input, k) && a.Input[k].Default != nil) ==> has(res, k))
  cover valid: err == nil && has(args, "x")

verify (a *ddla.Action) RequiresInput(k) (r)
  modular
  modifies nothing
  requires has(a.Input, k) ==> a.Input[k] != nil
  ensures inputs that are not optional are required: r == (has(a.Input, k) && !a.Input[k].Optional)

verify (a *ddla.Action) SetDefaults(inputs) (err)
  requires forall(k, "string", has(a.Input, k) ==> a.Input[k] != nil) && inputs != nil
  ensures given values stay: forall(k, "string", old(has(inputs, k)) ==> (has(inputs, k) && inputs[k] == old(inputs[k])))
  ensures missing values have their default: forall(k, "string", (has(a.Input, k) && a.Input[k].Default != nil && !old(has(inputs, k))) ==> (has(inputs, k) && inputs[k] == a.Input[k].Default))
  ensures nothing else is set: forall(k, "string", (has(inputs, k) && !old(has(inputs, k))) ==> (has(a.Input, k) && a.Input[k].Default != nil))

verify ddlc.ValToDDLType(typedef, s) (v, err)
  def ty() = strings.ToLower(typedef)
  ensures only known types are converted: err == nil ==> in(ty(), "integer", "float", "number", "string", "list", "boolean", "hash", "array")
  ensures integers: (err == nil && ty() == "integer") ==> (r1(strconv.Atoi(s)) == nil && v == box(conv(r0(strconv.Atoi(s)), "int64"), "int64"))
  ensures numbers: (err == nil && in(ty(), "float", "number")) ==> (r1(strconv.ParseFloat(s, 64)) == nil && v == box(r0(strconv.ParseFloat(s, 64)), "float64"))
  ensures strings stay as they are: in(ty(), "string", "list") ==> (err == nil && v == box(s, "string"))
  ensures booleans: (err == nil && ty() == "boolean") ==> (r1(strconv.ParseBool(s)) == nil && v == box(r0(strconv.ParseBool(s)), "bool"))
  ensures maps and lists hold the JSON that was given: (err == nil && in(ty(), "hash", "array")) ==> ite(ty() == "hash", typeis(v, "map[string]any"), typeis(v, "[]any"))
  cover map: err == nil && ty() == "hash"

verify (a *ddla.Action) ValidateRequestJSON(req) (w, err)
  opaque (*ddla.Action).ValidateRequestData
  ghost seen bool
  ghost parsed bool
  oncall encoding/json.Unmarshal(_, _) (e): set parsed = e == nil
  oncall (*ddla.Action).ValidateRequestData(p, d) (w2, e): set seen = p == a && e == nil
  ensures only valid data is accepted: err == nil ==> (parsed && seen)
