// C08 C10 C11: floats (the generated file floats_all.h includes every emp-tool/circuits/float32_*.cpp)
#include "circ.h"
#include FLOATS_ALL
static Float inF(const char *name) { Float r; for (int i = 0; i < 32; ++i) { block l; vx_input(&l, name, i); r.value[i] = Bit(l); } return r; }
static void outF(const char *tag, const Float &x) { for (int i = 0; i < 32; ++i) vx_wire(tag, i, &x.value[i].bit); }
enum { EQ, LT, LE, NEG, ABS, XOR_, AND_, XORA, IFM, IFF, SWAP, IDX, ADD, SUB, MUL, DIV, SQR, SQRT, SIN, COS, EXP2, EXP, LN, LOG2 };
extern "C" void h_float() {
	net_setup();
	Float a = inF("a"), b = inF("b"); const Float &ca = a;
	int op = (int)vx_param("op"), alias = (int)vx_param("alias");
	const Float &y = alias ? a : b;
	switch (op) {
	case EQ: outB("r", 0, a.equal(y)); break;
	case LT: outB("r", 0, a.less_than(y)); break;
	case LE: outB("r", 0, a.less_equal(y)); break;
	case NEG: outF("r", -a); break;
	case ABS: outF("r", a.abs()); break;
	case XOR_: outF("r", a ^ y); break;
	case AND_: outF("r", a & y); break;
	case XORA: { Float c = a; Float d = (c ^= y); outF("r", c); outF("s", d); break; }
	case IFM: outF("r", a.If(inB("c", 0), y)); break;
	case IFF: { Float r = If(inB("c", 0), a, b); outF("r", r); break; }
	case SWAP: swap(inB("c", 0), a, b); outF("r", a); outF("s", b); return;
	case IDX: { Float r = a; for (int i = 0; i < 32; ++i) r[i] = ca[31 - i]; outF("r", r); break; }
	case ADD: outF("r", a + y); break;
	case SUB: outF("r", a - y); break;
	case MUL: outF("r", a * y); break;
	case DIV: outF("r", a / y); break;
	case SQR: outF("r", a.sqr()); break;
	case SQRT: outF("r", a.sqrt()); break;
	case SIN: outF("r", a.sin()); break;
	case COS: outF("r", a.cos()); break;
	case EXP2: outF("r", a.exp2()); break;
	case EXP: outF("r", a.exp()); break;
	case LN: outF("r", a.ln()); break;
	case LOG2: outF("r", a.log2()); break;
	}
	outF("a", a);
	outF("b", b);
}
