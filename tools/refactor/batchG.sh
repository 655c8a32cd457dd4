"$(dirname "$0")"/rt.sh G1 <<'EOF'
from ed import sub
p="models/components/line.py"
sub(p,("""G = G_orig + TX_LARGE_G * G_orig * tx_factor
B = B_orig + TX_LARGE_B * B_orig * tx_factor

kcl_r = KCL_r(G * Vr_from - G * Vr_to - B * Vi_from + B * Vi_to)
kcl_i = KCL_i(G * Vi_from - G * Vi_to + B * Vr_from - B * Vr_to)  

line_lh = TwoTerminalModelDefinition(variables, constants, kcl_r, kcl_i)
""","""def _admittance_model(g, b):
    dVr = Vr_from - Vr_to
    dVi = Vi_from - Vi_to
    return TwoTerminalModelDefinition(variables, constants, KCL_r(g * dVr - b * dVi), KCL_i(g * dVi + b * dVr))

line_lh = _admittance_model(G_orig * (1 + TX_LARGE_G * tx_factor), B_orig * (1 + TX_LARGE_B * tx_factor))
"""),("""G = G_orig * (1 - tx_factor)
B = B_orig * (1 - tx_factor)

kcl_r = KCL_r(G * Vr_from - G * Vr_to - B * Vi_from + B * Vi_to)
kcl_i = KCL_i(G * Vi_from - G * Vi_to + B * Vr_from - B * Vr_to)  

shunt_lh = TwoTerminalModelDefinition(variables, constants, kcl_r, kcl_i)
""","""shunt_lh = _admittance_model(G_orig - tx_factor * G_orig, B_orig - tx_factor * B_orig)
"""),("""    index_map = {}
    index_map[Vr_from] = Vr_from_idx
    index_map[Vi_from] = Vi_from_idx
    index_map[Vr_to] = Vr_to_idx
    index_map[Vi_to] = Vi_to_idx
    index_map[Lr_from] = Lr_from_idx
    index_map[Li_from] = Li_from_idx
    index_map[Lr_to] = Lr_to_idx
    index_map[Li_to] = Li_to_idx

    if is_shunt:
        return LagrangeStampDetails(shunt_lh, index_map, optimization_enabled)
    else:
        return LagrangeStampDetails(line_lh, index_map, optimization_enabled)
""","""    keys = (Vr_from, Vi_from, Vr_to, Vi_to, Lr_from, Li_from, Lr_to, Li_to)
    values = (Vr_from_idx, Vi_from_idx, Vr_to_idx, Vi_to_idx, Lr_from_idx, Li_from_idx, Lr_to_idx, Li_to_idx)
    model = shunt_lh if is_shunt else line_lh
    return LagrangeStampDetails(model, dict(zip(keys, values)), optimization_enabled)
"""),("""        self.G = r / (x ** 2 + r ** 2)
        self.B = -x / (x ** 2 + r ** 2)
""","""        y = 1 / complex(r, x)
        self.G = y.real
        self.B = y.imag
"""),("""        self.shunt_stamper_from = build_line_stamper_bus(
            self.from_bus,
            GROUND,
            optimization_enabled,
            is_shunt=True
            )

        self.shunt_stamper_to = build_line_stamper_bus(
            self.to_bus,
            GROUND,
            optimization_enabled,
            is_shunt=True
            )
""","""        (self.shunt_stamper_from, self.shunt_stamper_to) = [build_line_stamper_bus(b, GROUND, optimization_enabled, True) for b in (self.from_bus, self.to_bus)]
"""))
p="models/components/load.py"
sub(p,("""        if not self.Z == 0:
            r = np.real(self.Z)
            x = np.imag(self.Z)
            self.G = r / (r**2 + x**2)
            self.B = -x / (r**2 + x**2)
        else:
            self.G = 0
            self.B = 0
""","""        self.G, self.B = self._admittance(Z)
"""),("""    def get_connections(self):""","""    @staticmethod
    def _admittance(z):
        if z == 0:
            return 0, 0
        mag_sq = abs(z) ** 2
        return np.real(z) / mag_sq, -np.imag(z) / mag_sq

    def get_connections(self):"""),("""        if self.P == 0 and self.Q == 0:
            self.stamper_pq = None
        else:
            self.stamper_pq = build""","""        self.stamper_pq = None
        if self.P != 0 or self.Q != 0:
            self.stamper_pq = build"""),
("""        self.load_num = load_num if load_num != None else str(self.id)""","""        if load_num is None:
            load_num = str(self.id)
        self.load_num = load_num"""),
("""kcl_r = KCL_r((P * Vr + Q * Vi) / (Vr ** 2 + Vi ** 2))
kcl_i = KCL_i((P * Vi - Q * Vr) / (Vr ** 2 + Vi ** 2))
""","""V_sq = Vr * Vr + Vi * Vi
kcl_r = KCL_r(P * Vr / V_sq + Q * Vi / V_sq)
kcl_i = KCL_i(P * Vi / V_sq - Q * Vr / V_sq)
"""))
p="models/components/generator.py"
sub(p,("""F_Q = Eq(Vset ** 2 - Vr ** 2 - Vi ** 2)""","""V_sq = Vr ** 2 + Vi ** 2
F_Q = Eq(Vset ** 2 - V_sq)"""),("""        return build_stamps_from_stamper(self, self.stamper, [self.P, self.Vset])""","""        parameters = [self.P, self.Vset]
        return build_stamps_from_stamper(self, self.stamper, parameters)"""))
EOF
"$(dirname "$0")"/rt.sh G2 <<'EOF'
from ed import sub
p="models/components/line.py"
sub(p,("""        self.G = r / (x ** 2 + r ** 2)
        self.B = -x / (x ** 2 + r ** 2)
""","""        self.G, self.B = self._series_admittance(r, x)
"""),("""    def assign_nodes(""","""    @staticmethod
    def _series_admittance(r, x):
        z_sq = np.square(r) + np.square(x)
        return r / z_sq, -(x / z_sq)

    def assign_nodes("""),
("""        return build_stamps_from_stampers(self, 
            (self.line_stamper, [self.G, self.B, 0]), 
            (self.shunt_stamper_from, [0, self.B_line, 0]),
            (self.shunt_stamper_to, [0, self.B_line, 0])
            )""","""        pairs = [(self.line_stamper, [self.G, self.B, 0])]
        for s in (self.shunt_stamper_from, self.shunt_stamper_to):
            pairs.append((s, [0, self.B_line, 0]))
        return build_stamps_from_stampers(self, *pairs)"""))
p="models/components/load.py"
sub(p,("""            r = np.real(self.Z)
            x = np.imag(self.Z)
            self.G = r / (r**2 + x**2)
            self.B = -x / (r**2 + x**2)
""","""            Y = 1 / self.Z
            self.G = np.real(Y)
            self.B = np.imag(Y)
"""),("""        return build_stamps_from_stampers(self, 
            (self.stamper_pq, [self.P, self.Q]),
            (self.stamper_Ic, [self.IP, self.IQ]),
            (self.stamper_z, [self.G, self.B, 0]),
            )""","""        stampers_with_values = (
            (self.stamper_pq, [self.P, self.Q]),
            (self.stamper_z, [self.G, self.B, 0]),
            (self.stamper_Ic, [self.IP, self.IQ]),
        )
        return build_stamps_from_stampers(self, *stampers_with_values)"""))
p="models/components/generator.py"
sub(p,("""        self.Qinit = -Qinit

        self.Qmax = -Qmax
        self.Qmin = -Qmin
""","""        (self.Qinit, self.Qmax, self.Qmin) = (-x for x in (Qinit, Qmax, Qmin))
"""))
EOF
