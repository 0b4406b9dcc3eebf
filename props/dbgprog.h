// A program using the debug macros; included once with and once without UNDEBUG.
// Every macro stands on a line of its own together with the note of that line.
struct PROG {
    Shared& s;
    const Step* steps;
    size_t now = 0;
    PROG(Shared& sh, const Step* st) : s(sh), steps(st) {}
    const Step& st() const { return steps[now]; }
    int I(int k) { s.evals[now][k]++; return st().i[k]; }
    double D(int k) { s.evals[now][k]++; return st().d; }
    std::string S(int k) { s.evals[now][k]++; return st().text; }
    std::vector<int> V(int k) { s.evals[now][k]++; return std::vector<int>(st().i, st().i + 3); }
    bool C() { s.conds[now]++; return st().cond; }
    static const char* file() { return __FILE__; }
    void mark(int k) { s.marks[now][k]++; }
    void at(int line) { s.line[now] = line; }
    int may(int v) { if (st().bad) throw std::runtime_error("bad value"); return v; }
    int odd(int v) { if (st().bad) throw 5; return v; }
    int nested(int k) { s.nested[now] = __LINE__; int inner = I(k); (void)inner; DBGVAR_JSON(inner); return st().i[k] + 1; }
    void run(size_t i) {
        now = i;
        switch (st().site) {
        case 0: at(__LINE__); DBGVAR(I(0)); break;
        case 1: at(__LINE__); DBGVAR(I(0), S(1), V(2)); break;
        case 2: at(__LINE__); DBGVAR(std::max(I(0), I(1)) + 1, D(2) * 2); break;
        case 3: at(__LINE__); DBGVARCOND(C(), I(0), S(1)); break;
        case 4: at(__LINE__); if (st().outer) DBGVARCOND(C(), I(0)); else mark(0); break;
        case 5: at(__LINE__); DBGMSG("a message", I(0)); break;
        case 6: at(__LINE__); DBGCHECK; break;
        case 7: at(__LINE__); DBGTRY(may(I(0))) mark(0); break;
        case 8: at(__LINE__); DBGTRY(mark(0); may(I(0)); mark(1)) mark(2); break;
        case 9: at(__LINE__); DBGVAR_HTML(I(0)); break;
        case 10: at(__LINE__); DBGVAR_HTML(S(0), V(1), I(2) == 'x'); break;
        case 11: at(__LINE__); DBGVARCOND_HTML(C(), D(0), I(1)); break;
        case 12: at(__LINE__); if (st().outer) DBGVARCOND_HTML(C(), I(0)); else mark(0); break;
        case 13: at(__LINE__); DBGVAR_JSON(I(0)); break;
        case 14: at(__LINE__); DBGVAR_JSON(S(0), st().text == "key\n", V(1)); break;
        case 15: at(__LINE__); DBGVARCOND_JSON(C(), I(0) % 7, D(1)); break;
        case 16: at(__LINE__); if (st().outer) DBGVARCOND_JSON(C(), I(0)); else mark(0); break;
        case 17: for (int n = 0; n < st().i[0] % 5; n++) { at(__LINE__); DBGVAR_JSON(n, I(1)); } break;
        case 18: at(__LINE__); if (st().outer) DBGVAR_JSON(I(0)); else DBGVAR_HTML(I(1)); break;
        case 19: at(__LINE__); DBGVAR_JSON(I(0), I(1), I(2), I(3), I(4), I(5), I(6), I(7), I(8), I(9)); break;
        case 20: at(__LINE__); DBGVAR_JSON(nested(0), I(1)); break;
        case 21: at(__LINE__); try { DBGVAR_JSON(I(0), may(I(1))); mark(0); } catch (const std::runtime_error&) { mark(1); } break;
        case 22: at(__LINE__); try { DBGTRY(odd(I(0))) mark(0); } catch (int) { mark(1); } break;
        case 23: at(__LINE__); try { DBGVAR_HTML(may(I(0))); mark(0); } catch (const std::runtime_error&) { mark(1); } break;
        case 24: at(__LINE__); DBGVAR_STDIO(I(0), D(1)); break;
        case 25: at(__LINE__); if (st().outer) DBGVARCOND_STDIO(C(), I(0)); else mark(0); break;
        case 26: at(__LINE__); DBGCHECK_STDIO; break;
        case 27: { at(__LINE__); auto f = [&](int x) { DBGVAR(x, S(1)); }; f(st().i[0]); break; }
        case 28: at(__LINE__); DBGMSG(S(0)); break;
        case 29: at(__LINE__); for (int n = 0; n < 3; n++) DBGVARCOND_HTML(n == st().i[0] % 3, n, I(1)); break;
        }
    }
};
