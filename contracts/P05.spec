property P05
alias ffa = github.com/choria-io/go-choria/filter/facts
alias gj = github.com/tidwall/gjson

def R(fact, fs) = gjson.GetBytes(fs, fact)
def text(r) = strings.ToLower(r.String())
def isText(r) = r.Exists() && r.Type == gjson.String
def isNum(r) = r.Exists() && r.Type == gjson.Number
# a filter value with a decimal point is compared as a fraction, others as whole numbers
def dot(v) = contains(v, ".")
def fl(v) = r0(strconv.ParseFloat(v, 64))
def flOK(v) = dot(v) && r1(strconv.ParseFloat(v, 64)) == nil
def whole(v) = r0(strconv.Atoi(v))
def inOK(v) = !dot(v) && r1(strconv.Atoi(v)) == nil

def isBool(r, t) = r.Exists() && r.Type == t
def yes(v) = r1(strconv.ParseBool(strings.ToLower(v))) == nil && r0(strconv.ParseBool(strings.ToLower(v)))
def pattern(v) = sprintf("(?i)%s", strings.TrimRight(strings.TrimLeft(v, "/"), "/"))

verify ffa.HasFactJSON(fact, op, value, fs, log) (ok, err)
  ensures a missing fact never matches: !R(fact, fs).Exists() ==> !ok
  ensures errors never match: err != nil ==> !ok
  ensures equal text: (isText(R(fact, fs)) && op == "==") ==> (err == nil && ok == strings.EqualFold(R(fact, fs).String(), value))
  ensures different text: (isText(R(fact, fs)) && op == "!=") ==> (err == nil && ok == !strings.EqualFold(R(fact, fs).String(), value))
  ensures smaller text: (isText(R(fact, fs)) && op == "<") ==> (err == nil && ok == (text(R(fact, fs)) < strings.ToLower(value)))
  ensures larger text: (isText(R(fact, fs)) && op == ">") ==> (err == nil && ok == (text(R(fact, fs)) > strings.ToLower(value)))
  ensures smaller or equal text: (isText(R(fact, fs)) && op == "<=") ==> (err == nil && ok == (text(R(fact, fs)) <= strings.ToLower(value)))
  ensures larger or equal text: (isText(R(fact, fs)) && op == ">=") ==> (err == nil && ok == (text(R(fact, fs)) >= strings.ToLower(value)))
  ensures equal fractions: (isNum(R(fact, fs)) && op == "==" && flOK(value)) ==> (err == nil && ok == (R(fact, fs).Float() == fl(value)))
  ensures different fractions: (isNum(R(fact, fs)) && op == "!=" && flOK(value)) ==> (err == nil && ok == (R(fact, fs).Float() != fl(value)))
  ensures smaller fractions: (isNum(R(fact, fs)) && op == "<" && flOK(value)) ==> (err == nil && ok == (R(fact, fs).Float() < fl(value)))
  ensures larger fractions: (isNum(R(fact, fs)) && op == ">" && flOK(value)) ==> (err == nil && ok == (R(fact, fs).Float() > fl(value)))
  ensures smaller or equal fractions: (isNum(R(fact, fs)) && op == "<=" && flOK(value)) ==> (err == nil && ok == (R(fact, fs).Float() <= fl(value)))
  ensures larger or equal fractions: (isNum(R(fact, fs)) && op == ">=" && flOK(value)) ==> (err == nil && ok == (R(fact, fs).Float() >= fl(value)))
  ensures equal whole numbers: (isNum(R(fact, fs)) && op == "==" && !dot(value)) ==> (err == nil && ok == (strconv.Itoa(R(fact, fs).Int()) == value))
  ensures different whole numbers: (isNum(R(fact, fs)) && op == "!=" && !dot(value)) ==> (err == nil && ok == (strconv.Itoa(R(fact, fs).Int()) != value))
  ensures smaller whole numbers: (isNum(R(fact, fs)) && op == "<" && inOK(value)) ==> (err == nil && ok == (R(fact, fs).Int() < whole(value)))
  ensures larger whole numbers: (isNum(R(fact, fs)) && op == ">" && inOK(value)) ==> (err == nil && ok == (R(fact, fs).Int() > whole(value)))
  ensures smaller or equal whole numbers: (isNum(R(fact, fs)) && op == "<=" && inOK(value)) ==> (err == nil && ok == (R(fact, fs).Int() <= whole(value)))
  ensures larger or equal whole numbers: (isNum(R(fact, fs)) && op == ">=" && inOK(value)) ==> (err == nil && ok == (R(fact, fs).Int() >= whole(value)))
  ensures unknown operators never match: !in(op, "==", "=~", "<=", ">=", "<", ">", "!=") ==> !ok
  cover matches: ok && op == ">"
  # facts that are truth values, patterns and structured facts
  ensures true facts only equal true values: (isBool(R(fact, fs), gjson.True) && op == "==" && ok) ==> (yes(value) || r0(strconv.ParseBool(value)))
  ensures true facts only differ from other values: (isBool(R(fact, fs), gjson.True) && op == "!=" && ok) ==> !yes(value)
  ensures false facts never equal true values: (isBool(R(fact, fs), gjson.False) && op == "==" && ok) ==> !r0(strconv.ParseBool(value))
  ensures false facts only differ from true values: (isBool(R(fact, fs), gjson.False) && op == "!=" && ok) ==> yes(value)
  ensures truth values have no order: ((isBool(R(fact, fs), gjson.True) || isBool(R(fact, fs), gjson.False)) && in(op, "<", ">", "<=", ">=")) ==> !ok
  ensures text matching a pattern: (isText(R(fact, fs)) && op == "=~" && err == nil) ==> ok == r0(regexp.Compile(pattern(value))).MatchString(R(fact, fs).String())
  ensures structured facts never match: (R(fact, fs).Exists() && (R(fact, fs).Type == gjson.Null || R(fact, fs).Type == gjson.JSON)) ==> !ok
