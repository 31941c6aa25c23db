from units import gen, member
UNITS = gen.units("C05") + member.units("C05")
