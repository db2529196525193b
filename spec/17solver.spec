// C16: the executable solver.
//
//   ran        how many processes have been run
//   ranName    the program run last, ranFile the file it was given, ranText what that file held
//   status     its exit status, -1 if it has none
//   printed    what it printed
ghost ran Int
ghost ranName Str
ghost ranFile Str
ghost ranText Str
ghost status Int
ghost printed Str
ufun exitCode(Obj) Int

contract ext:(*os.ProcessState).ExitCode
	assumed the standard library
	ensures code: ret0 == exitCode(recv)

contract iface:Encodable.Encoding
	assumed an encoding changes nothing but its context and never fails with the error for unsatisfiability
	modifies topv sigma
	ensures err: imp(ret1 != nil, !unsatErr(ret1))

contract (*compute.binSolver).Step
	props C16
	requires given: arg0 != nil
	ensures[C16] success: imp(ret0 == nil, ran == old(ran) + 1 && status == 10 && sameList(recv.output, app("bytesOf", "Bytes", printed)))
	ensures[C16] unsat: imp(unsatErr(ret0), ran == old(ran) + 1 && status == 20)
	ensures[C16] status: imp(ran > old(ran), iff(ret0 == nil, status == 10) && iff(unsatErr(ret0), status == 20))
	ensures[C16] file: imp(ran > old(ran), ranName == recv.solverPath && ranText == dimacs(res("Encodable.Encoding", 0)))
	ensures[C16] kept: imp(ret0 != nil, ref(recv.output) == ref(old(recv.output))) && recv.solverPath == old(recv.solverPath)
	ensures[C16] removed: allv(n, "Str", iff(isTemp(temps, n), isTemp(old(temps), n)))

// the lines of a text, the fields of a line, the numbers
ufun linesOf(Bytes) Lines
ufun fieldsOf(Bytes) Lines
ufun numeric(Str) Bool
ufun atoi(Str) Int

contract ext:bytes.Split
	assumed the standard library
	requires newline: text(arg1) == "\n"
	ensures lines: ref(ret0) == ref(linesOf(arg0))

contract ext:bytes.Fields
	assumed the standard library
	ensures fields: ref(ret0) == ref(fieldsOf(arg0))

contract ext:strconv.Atoi
	assumed the standard library
	ensures number: imp(ret1 == nil, ret0 == atoi(arg0))
	ensures numeric: iff(ret1 == nil, numeric(arg0))
	ensures ordinary: imp(ret1 != nil, !unsatErr(ret1))

fn valueLine(l) = len(l) > 0 && l[0] == 118
fn word(l, f) = text(fieldsOf(l[1:])[f])
fn words(l) = len(fieldsOf(l[1:]))
// the number n stands in a value line
ufun said(Bytes, Int) Bool
defn said: allp(o, "Bytes", n, "Int", iff(said(o, n), ex(j, 0, len(linesOf(o)), valueLine(linesOf(o)[j]) && ex(f, 0, words(linesOf(o)[j]), atoi(word(linesOf(o)[j], f)) == n))), said(o, n))
defn says: allp(o, "Bytes", j, "Int", f, "Int", imp(0 <= j && j < len(linesOf(o)) && valueLine(linesOf(o)[j]) && 0 <= f && f < words(linesOf(o)[j]), said(o, atoi(word(linesOf(o)[j], f)))), atoi(word(linesOf(o)[j], f)))
fn garbled(out, h) = ex(j, 0, h, valueLine(linesOf(out)[j]) && ex(f, 0, words(linesOf(out)[j]), !numeric(word(linesOf(out)[j], f))))
// no variable is both true and false
fn coherent(out) = allp(n, "Int", imp(n > 0 && said(out, n), !said(out, 0 - n)), said(out, n))
fn wanted(v, n, h) = ex(i, 0, h, n == id(v, i, 0) || n == id(v, i, 1) || n == id(v, i, 2))
fn valueAt(out, v, k, i) = 0 <= k && k <= 2 && said(out, id(v, i, k))
// a wanted number that is only ever said positive is recorded
fn kept(out, m, w, n) = imp(n > 0 && isTrue(w, n) && !said(out, 0 - n), isTrue(m, n))
fn isTrue(m, n) = has(m, n) && get(m, n)

fn one3(p, q, r) = (p || q || r) && !(p && q) && !(p && r) && !(q && r)
// every feature of v has one value
fn decided(out, v) = coherent(out) && all(i, 0, dim, one3(said(out, id(v, i, 0)), said(out, id(v, i, 1)), said(out, id(v, i, 2))))

contract compute.varValueFromBytes
	props C16
	modular
	modifies topv
	requires given: arg2 != nil
	ensures[C16] garbled: iff(ret1 != nil, garbled(arg0, len(linesOf(arg0))))
	ensures[C16] ordinary: imp(ret1 != nil, !unsatErr(ret1))
	ensures[C16] values: imp(ret1 == nil && decided(arg0, arg1), len(ret0.Val) == dim && all(i, 0, dim, valueAt(arg0, arg1, ret0.Val[i], i)))
	loop compute.variableFilter 0:
		invariant keys: allv(n, "Int", iff(has(f, n), wanted(arg1, n, index)) && imp(has(f, n), get(f, n)))
	loop 0:
		invariant plain: !garbled(arg0, index)
		invariant sound: allp(n, "Int", imp(isTrue(vval, n), said(arg0, n)), said(arg0, n))
		invariant read: allp(j, "Int", f, "Int", imp(0 <= j && j < index && valueLine(linesOf(arg0)[j]) && 0 <= f && f < words(linesOf(arg0)[j]), kept(arg0, vval, vfilter, atoi(word(linesOf(arg0)[j], f)))), atoi(word(linesOf(arg0)[j], f)))
	loop 1:
		invariant plain: all(f, 0, index, numeric(word(line, f)))
		invariant sound: allp(n, "Int", imp(isTrue(vval, n), said(arg0, n)), said(arg0, n))
		invariant read: allp(f, "Int", imp(0 <= f && f < index, kept(arg0, vval, vfilter, atoi(word(line, f)))), atoi(word(line, f)))
		invariant still: allp(n, "Int", imp(!said(arg0, 0 - n) && pre(isTrue(vval, n)), isTrue(vval, n)), get(vval, n)) && allp(n, "Int", imp(!said(arg0, 0 - n) && pre(isTrue(vval, n)), isTrue(vval, n)), has(vval, n))
	loop 2:
		invariant count: index <= dim
		invariant values: imp(decided(arg0, arg1), len(c.Val) == index && all(i, 0, index, valueAt(arg0, arg1, c.Val[i], i)))

contract (*compute.binSolver).Values
	props C16
	requires given: arg1 != nil
	let printout = recv.output
	ensures[C16] err: iff(ret1 != nil, len(arg0) > 0 && garbled(printout, len(linesOf(printout))))
	ensures[C16] values: imp(ret1 == nil, len(ret0) == len(arg0) && all(j, 0, len(arg0), imp(decided(printout, arg0[j]), len(ret0[j].Val) == dim && all(i, 0, dim, valueAt(printout, arg0[j], ret0[j].Val[i], i)))))
	ensures[C16] kept: sameList(recv.output, old(recv.output)) && recv.solverPath == old(recv.solverPath)
	loop 0:
		invariant plain: imp(index > 0, !garbled(recv.output, len(linesOf(recv.output))))
		invariant values: all(j, 0, index, imp(decided(recv.output, arg0[j]), len(out[j].Val) == dim && all(i, 0, dim, valueAt(recv.output, arg0[j], out[j].Val[i], i))))

contract ext:os.Stat
	assumed the standard library
	ensures ordinary: imp(ret1 != nil, !unsatErr(ret1))

contract compute.BinSolver
	props C16
	ensures[C16] err: imp(ret1 != nil, !unsatErr(ret1))
	ensures[C16] path: imp(ret1 == nil, as(ret0, "compute.binSolver").solverPath == arg0)
