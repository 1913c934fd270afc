"""writes harness/keccak_circuit.inc: stand-in permutation circuit used by the C28 harness"""
N = 1600
L = ["%d %d" % (N, 2 * N), "1 %d" % N, "1 %d" % N, ""]
for j in range(N):
    L.append("2 1 %d %d %d AND" % ((3 * j + 5) % N, (7 * j + 11) % N, N + j))
t = "\n".join(L) + "\n"
o = "unsigned char emp_tool_circuits_files_bristol_fashion_Keccak_f_txt[] =\n" + "\n".join('"%s\\n"' % l for l in L) + ";\n"
o += "unsigned int emp_tool_circuits_files_bristol_fashion_Keccak_f_txt_len = %d;\n" % len(t)
import os
open(os.path.dirname(os.path.abspath(__file__)) + "/../harness/keccak_circuit.inc", "w").write(o)
