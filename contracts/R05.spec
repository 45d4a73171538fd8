property R05
alias shell = github.com/choria-io/go-choria/validator/shellsafe
alias maxl = github.com/choria-io/go-choria/validator/maxlength
alias enump = github.com/choria-io/go-choria/validator/enum
alias rgx = github.com/choria-io/go-choria/validator/regex
alias v4 = github.com/choria-io/go-choria/validator/ipv4
alias v6 = github.com/choria-io/go-choria/validator/ipv6
alias ipa = github.com/choria-io/go-choria/validator/ipaddress
alias val = github.com/choria-io/go-choria/validator
alias netp = net

pure (reflect.Value).Slice (reflect.Value).Kind (reflect.Value).String (reflect.Value).Interface (reflect.Value).Len reflect.ValueOf

extern (ip netp.IP).To4() (r) pure
  ensures ip == nil ==> r == nil

def meta(s) = contains(s, "`") || contains(s, "$") || contains(s, ";") || contains(s, "|") || contains(s, "&&") || contains(s, ">") || contains(s, "<")
def rxOK(r, s) = r1(regexp.Compile(r)) == nil && r0(regexp.Compile(r)).MatchString(s)
def listed(s, l) = exists(i, 0, len(l), l[i] == s)
def parsed(s) = !isnil(netp.ParseIP(s))
def isV4(s) = len(netp.ParseIP(s).To4()) > 0

verify shell.Validate(s) (ok, err)
  modular
  modifies nothing
  ensures exactly strings without shell metacharacters: ok == !meta(s)
  ensures result and error agree: ok == (err == nil)
  cover refused: !ok

verify maxl.ValidateString(s, n) (ok, err)
  modular
  modifies nothing
  ensures exactly strings within the limit: ok == (len(s) <= n)
  ensures result and error agree: ok == (err == nil)
  cover refused: !ok

verify enump.ValidateString(s, l) (ok, err)
  modular
  modifies nothing
  ensures exactly the listed values: ok == listed(s, l)
  ensures result and error agree: ok == (err == nil)
  cover refused: !ok

verify enump.ValidateSlice(s, l) (ok, err)
  modular
  modifies nothing
  ensures every value is listed: ok == forall(i, 0, len(s), listed(s[i], l))
  ensures result and error agree: ok == (err == nil)
  cover refused: !ok

verify rgx.ValidateString(s, r) (ok, err)
  modular
  modifies nothing
  ensures exactly the strings matching a valid expression: ok == rxOK(r, s)
  ensures result and error agree: ok == (err == nil)
  cover refused: !ok

verify v4.ValidateString(s) (ok, err)
  modular
  modifies nothing
  ensures exactly IPv4 addresses: ok == (netp.ParseIP(s).To4() != nil)
  ensures result and error agree: ok == (err == nil)
  cover refused: !ok

verify v6.ValidateString(s) (ok, err)
  modular
  modifies nothing
  ensures exactly IPv6 addresses: ok == (netp.ParseIP(s) != nil && netp.ParseIP(s).To4() == nil)
  ensures result and error agree: ok == (err == nil)
  cover refused: !ok

verify ipa.ValidateString(s) (ok, err)
  modular
  modifies nothing
  ensures exactly IP addresses: ok == (netp.ParseIP(s) != nil)
  ensures result and error agree: ok == (err == nil)
  cover refused: !ok

verify shell.ValidateStructField(v, tag) (ok, err)
  modular
  modifies nothing
  ensures exactly strings without shell metacharacters: ok == (v.Kind() == reflect.String && !meta(v.String()))
  ensures result and error agree: ok == (err == nil)

verify v4.ValidateStructField(v, tag) (ok, err)
  modular
  modifies nothing
  ensures exactly IPv4 addresses: ok == (v.Kind() == reflect.String && netp.ParseIP(v.String()).To4() != nil)
  ensures result and error agree: ok == (err == nil)

verify v6.ValidateStructField(v, tag) (ok, err)
  modular
  modifies nothing
  ensures exactly IPv6 addresses: ok == (v.Kind() == reflect.String && netp.ParseIP(v.String()) != nil && netp.ParseIP(v.String()).To4() == nil)
  ensures result and error agree: ok == (err == nil)

verify ipa.ValidateStructField(v, tag) (ok, err)
  modular
  modifies nothing
  ensures exactly IP addresses: ok == (v.Kind() == reflect.String && netp.ParseIP(v.String()) != nil)
  ensures result and error agree: ok == (err == nil)

def rtag(tag) = regexp.MustCompile("^regex=(.+)$").FindStringSubmatch(tag)
verify rgx.ValidateStructField(v, tag) (ok, err)
  modular
  modifies nothing
  ensures exactly the strings matching the expression of the tag: ok == (len(rtag(tag)) == 2 && v.Kind() == reflect.String && rxOK(rtag(tag)[1], v.String()))
  ensures result and error agree: ok == (err == nil)

def ltag(tag) = regexp.MustCompile("^maxlength=(\\d+)$").FindStringSubmatch(tag)
verify maxl.ValidateStructField(v, tag) (ok, err)
  modular
  modifies nothing
  ensures strings within the limit of the tag: v.Kind() == reflect.String ==> ok == (len(ltag(tag)) == 2 && len(v.String()) <= r0(strconv.Atoi(ltag(tag)[1])))
  ensures slices within the limit of the tag: (v.Kind() == reflect.Slice && ok) ==> v.Slice(0, v.Len()).Len() <= r0(strconv.Atoi(ltag(tag)[1]))
  ensures only strings and slices have a length: ok ==> (len(ltag(tag)) == 2 && (v.Kind() == reflect.String || v.Kind() == reflect.Slice))
  ensures result and error agree: ok == (err == nil)

verify val.validateStructField(v, f, tag) (err)
  opaque val.validateStructValue
  ghost nested bool
  oncall val.validateStructValue(x) (ok, e): assume ok == (e == nil)
  oncall val.validateStructValue(x) (ok, e): set nested = ok && x == v
  ensures the fields of nested structures are valid: (err == nil && v.Kind() == reflect.Struct) ==> nested
  ensures fields without a validation are valid: (tag == "" && v.Kind() != reflect.Struct) ==> err == nil
  ensures shell safe fields are accepted: (tag == "shellsafe" && v.Kind() == reflect.String && !meta(v.String())) ==> err == nil
  ensures durations are valid: (err == nil && tag == "duration") ==> (v.Kind() == reflect.String && r1(time.ParseDuration(v.String())) == nil)
  ensures shell safe fields: (err == nil && tag == "shellsafe") ==> (v.Kind() == reflect.String && !meta(v.String()))
  ensures IPv4 fields: (err == nil && tag == "ipv4") ==> (v.Kind() == reflect.String && netp.ParseIP(v.String()).To4() != nil)
  ensures IPv6 fields: (err == nil && tag == "ipv6") ==> (v.Kind() == reflect.String && netp.ParseIP(v.String()) != nil && netp.ParseIP(v.String()).To4() == nil)
  ensures IP address fields: (err == nil && tag == "ipaddress") ==> (v.Kind() == reflect.String && netp.ParseIP(v.String()) != nil)
  ensures regular expression fields: (err == nil && prefix(tag, "regex")) ==> (len(rtag(tag)) == 2 && v.Kind() == reflect.String && rxOK(rtag(tag)[1], v.String()))
  ensures length limited fields: (err == nil && prefix(tag, "maxlength") && v.Kind() == reflect.String) ==> (len(ltag(tag)) == 2 && len(v.String()) <= r0(strconv.Atoi(ltag(tag)[1])))
  ensures enumerated fields: (err == nil && prefix(tag, "enum") && v.Kind() == reflect.String && typeis(v.Interface(), "string")) ==> (len(etag(tag)) == 2 && listed(unbox(v.Interface(), "string"), strings.Split(etag(tag)[1], ",")))

def etag(tag) = regexp.MustCompile("^enum=(.+,*?)+$").FindStringSubmatch(tag)
verify enump.ValidateStructField(v, tag) (ok, err)
  modular
  modifies nothing
  ensures strings must be listed in the tag: (v.Kind() == reflect.String && typeis(v.Interface(), "string")) ==> ok == (len(etag(tag)) == 2 && listed(unbox(v.Interface(), "string"), strings.Split(etag(tag)[1], ",")))
  ensures every string of a slice must be listed in the tag: (ok && v.Kind() == reflect.Slice) ==> (typeis(v.Interface(), "[]string") && forall(i, 0, len(unbox(v.Interface(), "[]string")), listed(unbox(v.Interface(), "[]string")[i], strings.Split(etag(tag)[1], ","))))
  ensures result and error agree: ok == (err == nil)

pure (reflect.Value).NumField (reflect.Value).Field (reflect.Value).Type (reflect.Type).Field (reflect.StructTag).Get
verify val.validateStructValue(v) (ok, err)
  requires v.NumField() >= 0
  ghost n int = 0
  oncall val.validateStructField(f, t, tag): assert fields are validated in turn: f == v.Field(n)
  oncall val.validateStructField(f, t, tag): assert the tag of the field is used: tag == strings.TrimSpace(v.Type().Field(n).Tag.Get("validate"))
  oncall val.validateStructField(f, t, tag) (e): set n = n + ite(e == nil, 1, 0)
  ensures every field is valid: ok ==> n == v.NumField()
  ensures result and error agree: ok == (err == nil)

pure (reflect.Value).Elem (reflect.Value).FieldByName (reflect.Type).FieldByName
def target(t) = ite(reflect.ValueOf(t).Kind() == reflect.Ptr, reflect.ValueOf(t).Elem(), reflect.ValueOf(t))
verify val.ValidateStruct(t) (ok, err)
  opaque val.validateStructValue
  ghost valid bool
  oncall val.validateStructValue(x) (o, e): set valid = o && x == target(t)
  ensures the structure given is the one validated: ok ==> valid

verify val.ValidateStructField(t, name) (ok, err)
  opaque val.validateStructField
  ghost valid bool
  oncall val.validateStructField(x, f, tag): assert the field asked for is validated: x == target(t).FieldByName(name) && tag == strings.TrimSpace(f.Tag.Get("validate"))
  oncall val.validateStructField(x, f, tag) (e): set valid = e == nil
  ensures the field given is valid: ok ==> valid
