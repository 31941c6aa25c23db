from units import gen, member
UNITS = gen.units("C04") + member.units("C04")
