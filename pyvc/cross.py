"""Second back end: re-discharge of an obligation with cvc5 (SMT-LIB text of the query)."""
import cvc5


def cvc5_unsat(solver, ms=10000):
    text = '(set-logic ALL)\n' + solver.to_smt2()
    text = text.replace('(check-sat)', '')
    try:
        tm = cvc5.TermManager()
        s = cvc5.Solver(tm)
        s.setOption('tlimit-per', str(ms))
        s.setOption('strings-exp', 'true')
        p = cvc5.InputParser(s)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'q')
        sm = p.getSymbolManager()
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            c.invoke(s, sm)
        r = s.checkSat()
        return 'unsat' if r.isUnsat() else 'sat' if r.isSat() else 'unknown'
    except Exception as e:
        return 'error: ' + str(e)[:80]
