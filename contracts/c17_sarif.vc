# C17: the SARIF report. Specification state: the files read so far, the
# analyses run so far, and the diagnostics those analyses reported, in order.
ghost nread int
ghost nproc int
ghost ndiag int
ghost nreport int
def readPath(i) = ext("ghost.readPath", string, i)
def readText(i) = ext("ghost.readText", string, i)
def procText(i) = ext("ghost.procText", string, i)
def logDiag(m) = ext("ghost.diag", Diagnostic, m)
def logProc(m) = ext("ghost.diagproc", int, m)
def fileURI(p) = ext("ghost.uri", string, "file", ext("path/filepath.Abs#0", string, p))

extern os.ReadFile(name) (b, err)
  ensures imp(err == nil, nread == old(nread) + 1 && readPath(old(nread)) == name && readText(old(nread)) == str(b))
  modifies nread
extern os.Stat(name) (fi, err)
  ensures imp(err == nil, fi != nil)
  modifies nothing
extern (*net/url.URL).String(u) (r)
  ensures imp(u.Opaque == "" && u.Host == "" && u.RawPath == "" && u.RawQuery == "" && u.Fragment == "" && u.RawFragment == "" && !u.ForceQuery && !u.OmitHost && u.User == nil, r == ext("ghost.uri", string, u.Scheme, u.Path))
  flags pure
extern teal.Process(source) (r)
  ensures r != nil && fresh(r) && srcOf(r) == source && symsOK(r) && nproc == old(nproc) + 1 && procText(old(nproc)) == source
  ensures ndiag == old(ndiag) + len(r.Diagnostics)
  ensures forall(k, 0, len(r.Diagnostics), r.Diagnostics[k] != nil && logDiag(old(ndiag) + k) == r.Diagnostics[k] && logProc(old(ndiag) + k) == old(nproc))
  ensures forall(k, 0, len(r.Diagnostics), 1 <= r.Diagnostics[k].Severity() && r.Diagnostics[k].Severity() <= 4)
  modifies nproc, ndiag

def level(s) = ite(s == DiagErr, "error", ite(s == DiagWarn, "warning", "note"))
rec ext declared(rs []sarif.Rule, id string, n int) bool = n > 0 && (rs[n-1].Id == id || declared(rs, id, n-1))
lemma declaredMono(rs []sarif.Rule, id string, n int) by n trigger(declared(rs, id, n)): imp(n > 0 && declared(rs, id, n-1), declared(rs, id, n))
def locOK(L, d, p) = L.PhysicalLocation.Region.StartLine == d.Line() + 1 && L.PhysicalLocation.Region.StartColumn == d.Begin() + 1 && L.PhysicalLocation.ArtifactLocation.Index == p && L.PhysicalLocation.ArtifactLocation.Uri == fileURI(readPath(p))
def resOK(R, d, p) = R.RuleId == d.Rule() && R.Level == level(d.Severity()) && R.Message.Text == d.String() && len(R.Locations) == 1 && locOK(R.Locations[0], d, p)
def R0(v) = as(v, sarif.Results).Runs[0]

extern encoding/json.MarshalIndent(v, prefix, indent) (b, err)
  requires report: is(v, sarif.Results) && len(as(v, sarif.Results).Runs) == 1
  requires analysed: nproc == nread && forall(i, 0, nread, procText(i) == readText(i))
  requires artifacts: len(R0(v).Artifacts) == nread && forall(i, 0, nread, R0(v).Artifacts[i].Location.Uri == fileURI(readPath(i)))
  requires results: len(R0(v).Results) == ndiag
  requires mirror: forall(m, 0, ndiag, resOK(R0(v).Results[m], logDiag(m), logProc(m)))
  requires syntax: declared(R0(v).Tool.Driver.Rules, "SYNTAX", len(R0(v).Tool.Driver.Rules))
  requires parse: declared(R0(v).Tool.Driver.Rules, "PARSE", len(R0(v).Tool.Driver.Rules))
  requires rules: forall(k, 0, len(LintRules), declared(R0(v).Tool.Driver.Rules, LintRules[k].Id(), len(R0(v).Tool.Driver.Rules)))
  ensures nreport == old(nreport) + 1
  modifies nreport

func cmd/tealsarif.ToSarifLevel(s) (r)
  props C17
  requires 1 <= s && s <= 4
  ensures level: r == level(s)
  modifies nothing

func cmd/tealsarif.run(a) (err)
  props C17
  requires nread == 0 && nproc == 0 && ndiag == 0
  requires forall(k, 0, len(LintRules), LintRules[k] != nil)
  ensures reported: imp(err == nil, nreport == old(nreport) + 1)
  flags terminates
  invariant <i:idx, rs:[]sarif.Rule> len(rs) == 2 + i
  invariant <rs:[]sarif.Rule> declared(rs, "SYNTAX", len(rs)) && declared(rs, "PARSE", len(rs))
  invariant <i:idx, rs:[]sarif.Rule> forall(k, 0, i, declared(rs, LintRules[k].Id(), len(rs)))
  invariant <i:idx~rangeindex> nread == i
  invariant nproc == nread && forall(i, 0, nread, procText(i) == readText(i))
  invariant <as:[]sarif.Artifact> len(as) == nread && forall(i, 0, nread, as[i].Location.Uri == fileURI(readPath(i)))
  invariant <rs:[]sarif.Result> len(rs) == ndiag
  invariant <j:idx, ds:[]Diagnostic, rs:[]sarif.Result> len(rs) + len(ds) == ndiag + j
  invariant <rs:[]sarif.Result> forall(m, 0, len(rs), base(rs[m].Locations) < alloc() && resOK(rs[m], logDiag(m), logProc(m)))
  invariant <run:sarif.Run> declared(run.Tool.Driver.Rules, "SYNTAX", len(run.Tool.Driver.Rules)) && declared(run.Tool.Driver.Rules, "PARSE", len(run.Tool.Driver.Rules))
  invariant <run:sarif.Run> forall(k, 0, len(LintRules), declared(run.Tool.Driver.Rules, LintRules[k].Id(), len(run.Tool.Driver.Rules)))

func teal.(lexerError).Rule(e) (r)
  props C03 C17
  ensures exact: r == "SYNTAX"
func teal.(lexerError).Line(e) (r)
  props C03 C17
  ensures exact: r == e.l
func teal.(lexerError).Begin(e) (r)
  props C03 C17
  ensures exact: r == e.li
func teal.(lexerError).Severity(e) (r)
  props C03 C17
  ensures exact: r == DiagErr
func teal.(lexerError).String(e) (r)
  props C03 C17
  ensures exact: r == e.msg
func teal.(parseError).Rule(e) (r)
  props C03 C17
  ensures exact: r == "PARSE"
func teal.(parseError).Line(e) (r)
  props C03 C17
  ensures exact: r == e.l
func teal.(parseError).Begin(e) (r)
  props C03 C17
  ensures exact: r == e.b
func teal.(parseError).End(e) (r)
  props C03 C17
  ensures exact: r == e.e
func teal.(parseError).Severity(e) (r)
  props C03 C17
  ensures exact: r == DiagErr
func teal.(parseError).String(e) (r)
  props C03 C17
  requires e.error != nil
  ensures exact: r == e.error.Error()
func teal.(lintError).Rule(e) (r)
  props C03 C17
  ensures exact: r == e.r
func teal.(lintError).Line(e) (r)
  props C03 C17
  ensures exact: r == e.l
func teal.(lintError).Begin(e) (r)
  props C03 C17
  ensures exact: r == e.b
func teal.(lintError).End(e) (r)
  props C03 C17
  ensures exact: r == e.e
func teal.(lintError).Severity(e) (r)
  props C03 C17
  ensures exact: r == e.s
func teal.(lintError).String(e) (r)
  props C03 C17
  requires e.error != nil
  ensures exact: r == e.error.Error()
