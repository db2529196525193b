// C14: optimisation.
//
//   ok(q,v,x)    the formula q, whose only free instance variable is v, is true when v has the value x
//   instance(x)  x is a partial instance
//   with(v,x)    a valuation that gives v the value x
//   rank(o,v,x)  a measure of x that the strict order o decreases
ufun ok(Obj, Str, Feats) Bool
ufun instance(Feats) Bool
ufun with(Str, Feats) Obj
ufun rank(Fn, Str, Feats) Int

fn introduced(v, q) = app("mk:github.com/jtcaraball/goexpdt/query/logop.WithVar", "Obj", v, q)
fn conjoined(p, q) = app("mk:github.com/jtcaraball/goexpdt/query/logop.And", "Obj", p, q)
fn formula(f, v) = app("call:Str/Obj", "Obj", f, v)
fn better(o, v, id, c) = app("call:Str:Str:Ref/Obj", "Obj", o, v, id, c)

// the meaning of WithVar and And, proved of their encodings under C08
defn introduced: allp(v, "Str", q, "Obj", m, "Obj", iff(models(introduced(v, q), m), instance(at(m, v)) && ok(q, v, at(m, v))), models(introduced(v, q), m))
defn conjoined: allp(p, "Obj", q, "Obj", v, "Str", x, "Feats", iff(ok(conjoined(p, q), v, x), ok(p, v, x) && ok(q, v, x)), ok(conjoined(p, q), v, x))
defn with: allp(v, "Str", x, "Feats", imp(instance(x), ref(at(with(v, x), v)) == ref(x)), with(v, x))

// the place of temporary files
ghost temps Obj
ufun isTemp(Obj, Str) Bool
ufun fileName(Obj) Str

contract ext:os.CreateTemp
	assumed the standard library: a new file, or an error and none
	modifies temps failed
	ensures failed: iff(failed, old(failed) || ret1 != nil)
	ensures made: allp(n, "Str", iff(isTemp(temps, n), isTemp(old(temps), n) || ret1 == nil && n == fileName(ret0)), isTemp(temps, n))
	ensures ordinary: imp(ret1 != nil, !unsatErr(ret1))
	ensures new: imp(ret1 == nil, ret0 != nil && !isTemp(old(temps), fileName(ret0)))

contract ext:os.Remove
	assumed the standard library: the file is gone
	modifies temps
	ensures gone: allp(n, "Str", iff(isTemp(temps, n), isTemp(old(temps), n) && n != arg0), isTemp(temps, n))

contract ext:(*os.File).Name
	assumed the standard library
	requires open: recv != nil
	ensures name: ret0 == fileName(recv)

contract compute.ComputeOptim
	props C14
	requires given: arg0 != nil && arg1 != nil && arg3 != nil && arg4 != nil
	requires strict: allv(x, "Feats", id, "Str", c, "Feats", imp(instance(x) && ok(better(arg1, arg2, id, c), arg2, x), 0 <= rank(arg1, arg2, x) && rank(arg1, arg2, x) < rank(arg1, arg2, c)))
	requires start: !failed
	ensures[C14] found: imp(ret1 == nil && ret0.Found, instance(ret0.Value.Val) && ok(formula(arg0, arg2), arg2, ret0.Value.Val))
	ensures[C14] best:
		assume ret1 == nil && ret0.Found
		fix x Feats
		set f = formula(arg0, arg2)
		set o = better(arg1, arg2, ret0.Value.ID, ret0.Value.Val)
		assume instance(x) && ok(f, arg2, x) && ok(o, arg2, x)
		have ok(conjoined(f, o), arg2, x)
		have models(introduced(arg2, conjoined(f, o)), with(arg2, x))
		show false
	ensures[C14] none:
		assume ret1 == nil && !ret0.Found
		fix x Feats
		assume instance(x) && ok(formula(arg0, arg2), arg2, x)
		have models(introduced(arg2, formula(arg0, arg2)), with(arg2, x))
		show false
	ensures[C14] err: iff(ret1 != nil, failed) && imp(ret1 != nil, !ret0.Found)
	ensures[C14] calls: imp(ret1 == nil, ret0.Calls == queries - old(queries))
	ensures[C14] removed: allv(n, "Str", iff(isTemp(temps, n), isTemp(old(temps), n)))
	loop 0:
		invariant kept: instance(at(kept, arg2)) && ok(formula(arg0, arg2), arg2, at(kept, arg2)) && epochOf(kept) == epoch
		invariant failed: !failed
		decreases rank(arg1, arg2, at(kept, arg2))
