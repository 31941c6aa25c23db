from units import gen, member
UNITS = gen.units("C06") + member.units("C06")
