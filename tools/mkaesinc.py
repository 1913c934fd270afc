"""writes harness/aesctr_circuit.inc: stand-in block circuit used by the C25/C08 harness"""
L = ["128 384", "2 128 128", "1 128", ""]
for j in range(128):
    L.append("2 1 %d %d %d AND" % ((3 * j + 5) % 128, 128 + (5 * j + 7) % 128, 256 + j))
t = "\n".join(L) + "\n"
o = "unsigned char emp_tool_circuits_files_bristol_fashion_aes_128_txt[] =\n" + "\n".join('"%s\\n"' % l for l in L) + ";\n"
o += "unsigned int emp_tool_circuits_files_bristol_fashion_aes_128_txt_len = %d;\n" % len(t)
open("/verif/harness/aesctr_circuit.inc", "w").write(o)
