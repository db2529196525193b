// C12: the DIMACS text.

fn dimacsC(c) = catfor(i, 0, len(c), itoa(c[i]) + " ") + "0"
fn dimacsCs(cs) = catfor(k, 0, len(cs), dimacsC(cs[k]) + "\n")
fn dimacs(f) = "p cnf " + itoa(f.tv) + " " + itoa(len(f.sClauses) + len(f.cClauses)) + "\n" + dimacsCs(f.sClauses) + dimacsCs(f.cClauses)

contract (cnf.CNF).ToBytes
	props C12 C17 C18
	ensures[C12] text: text(ret0) == dimacs(recv)

contract (cnf.CNF).ToFile
	props C12 C17 C18
	paths
	ensures[C12] text: imp(ret0 == nil, filePath == arg0 && file == dimacs(recv))
	ensures[C12] err: iff(ret0 != nil, ioFailed)
