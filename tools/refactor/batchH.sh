"$(dirname "$0")"/rt.sh H1 <<'EOF'
from ed import sub
p="models/components/transformer.py"
sub(p,("""scaled_tr = tr + (1 - tr) * tx_factor 
scaled_angle = ang - ang * tx_factor
""","""def _scale(value, target):
    return value + (target - value) * tx_factor

scaled_tr = _scale(tr, 1)
scaled_angle = _scale(ang, 0)
"""),("""lagrange = np.dot(duals, eqns)
""","""lagrange = sum(d * e for d, e in zip(duals, eqns))
"""),("""        self.ang_rad = ang * math.pi / 180.

        self.G_loss = r / (r ** 2 + x ** 2)
        self.B_loss = -x / (r ** 2 + x ** 2)
""","""        self.ang_rad = math.radians(ang)

        z_sq = r * r + x * x
        self.G_loss, self.B_loss = r / z_sq, -x / z_sq
"""),("""        if optimization_enabled:
            self.node_primary_Lambda_Ir = next(node_index)
            self.node_primary_Lambda_Ii = next(node_index)
            self.node_secondary_Lambda_Vr = next(node_index)
            self.node_secondary_Lambda_Vi = next(node_index)
        else:
            self.node_primary_Lambda_Ir = SKIP
            self.node_primary_Lambda_Ii = SKIP
            self.node_secondary_Lambda_Vr = SKIP
            self.node_secondary_Lambda_Vi = SKIP
""","""        take = (lambda: next(node_index)) if optimization_enabled else (lambda: SKIP)
        self.node_primary_Lambda_Ir = take()
        self.node_primary_Lambda_Ii = take()
        self.node_secondary_Lambda_Vr = take()
        self.node_secondary_Lambda_Vi = take()
"""),("""        index_map[Lr_pri_pos] = self.from_bus_pos.node_lambda_Vr
        index_map[Li_pri_pos] = self.from_bus_pos.node_lambda_Vi
        index_map[Lr_pri_neg] = self.from_bus_neg.node_lambda_Vr
        index_map[Li_pri_neg] = self.from_bus_neg.node_lambda_Vi
""","""        for (bus, lr, li) in ((self.from_bus_pos, Lr_pri_pos, Li_pri_pos), (self.from_bus_neg, Lr_pri_neg, Li_pri_neg)):
            index_map[lr] = bus.node_lambda_Vr
            index_map[li] = bus.node_lambda_Vi
"""),("""        return [(self.from_bus_pos, self.to_bus_pos), (self.from_bus_pos, self.from_bus_neg), (self.to_bus_pos, self.to_bus_neg)]""",
"""        across = [(self.from_bus_pos, self.to_bus_pos)]
        across.append((self.from_bus_pos, self.from_bus_neg))
        across.append((self.to_bus_pos, self.to_bus_neg))
        return across"""))
p="models/components/center_tap_transformer.py"
import re
s=open(p).read()
i=s.index("        # Values for the primary coil impedance"); j=s.index("    def assign_nodes")
s=s[:i]+"""        self.g0, self.b0 = self._coil_admittance(coil_1)
        self.g1, self.b1 = self._coil_admittance(coil_2)
        self.g2, self.b2 = self._coil_admittance(coil_3)

    def _coil_admittance(self, coil):
        base = coil.nominal_voltage ** 2 / self.power_rating
        r = coil.resistance * base
        x = coil.reactance * base
        if r == 0 and x == 0:
            return (0, 0)
        d = r**2 + x**2
        return (r / d, -x / d)

"""+s[j:]
i=s.index("        if optimization_enabled:\n            index_map[Lr_pri]"); j=s.index("        self.center_tap_xfmr_stamper =")
s=s[:i]+"""        if optimization_enabled:
            for (bus, lr, li) in ((from_bus, Lr_pri, Li_pri), (L1_bus, Lr_L1, Li_L1), (L2_bus, Lr_L2, Li_L2)):
                index_map[lr] = bus.node_lambda_Vr
                index_map[li] = bus.node_lambda_Vi
            for dual in (Lir_L1, Lii_L1, Lir_L2, Lii_L2):
                index_map[dual] = next(node_index)
        else:
            for dual in duals:
                index_map[dual] = SKIP

"""+s[j:]
open(p,'w').write(s)
sub(p,("""eqns = [
    1 / tr * (-Ir_L1 + Ir_L2),
    1 / tr * (-Ii_L1 + Ii_L2),
    Vr_L1 - 1 / tr * Vr_pri,""","""eqns = [
    (Ir_L2 - Ir_L1) / tr,
    (Ii_L2 - Ii_L1) / tr,
    Vr_L1 - Vr_pri / tr,"""))
EOF
"$(dirname "$0")"/rt.sh H2 <<'EOF'
from ed import sub
p="models/components/unbalanced_line.py"
s=open(p).read()
i=s.index("            eqn_map = {}"); j=s.index("            # Go through all lines")
s=s[:i]+"""            eqn_map = self._index_map(line1_from, line1_to)
            eqn_map_shunt_from = self._index_map(line1_from, GROUND)
            eqn_map_shunt_to = self._index_map(line1_to, GROUND)

"""+s[j:]
i=s.index("                var_map = {}"); j=s.index("                if i == j:\n                    segment")
s=s[:i]+"                var_map = self._index_map(line2_from, line2_to)\n\n"+s[j:]
i=s.index("                var_map_shunt_from = {}"); j=s.index("                shunt_stamper_from = Lag")
s=s[:i]+"""                var_map_shunt_from = self._index_map(line2_from, GROUND)
                var_map_shunt_to = self._index_map(line2_to, GROUND)

"""+s[j:]
s=s.replace("""    def get_connections(self):
""","""    @staticmethod
    def _index_map(from_bus, to_bus):
        return {
            Vr_from: from_bus.node_Vr,
            Vi_from: from_bus.node_Vi,
            Vr_to: to_bus.node_Vr,
            Vi_to: to_bus.node_Vi,
            Lr_from: from_bus.node_lambda_Vr,
            Li_from: from_bus.node_lambda_Vi,
            Lr_to: to_bus.node_lambda_Vr,
            Li_to: to_bus.node_lambda_Vi,
        }

    def get_connections(self):
""")
s=s.replace("""                if i == j:
                    segment = line_lh
                else:
                    segment = shunt_lh
""","""                segment = line_lh if line1 is line2 else shunt_lh
""")
s=s.replace("""        for i in range(len(self.lines)):
            # Get the line
            line1 = self.lines[i]
""","""        for i, line1 in enumerate(self.lines):
""").replace("""            for j in range(len(self.lines)):
                line2 = self.lines[j]
                line2_from""","""            for j, line2 in enumerate(self.lines):
                line2_from""")
s=s.replace("""        for phase in phases:
            self.lines.append(UnbalancedLinePhase(self.from_element, self.to_element, phase))
""","""        self.lines.extend(UnbalancedLinePhase(from_element, to_element, phase) for phase in phases)
""")
s=s.replace("""        for line in self.lines:
            from_bus, to_bus = line.get_nodes(self.network_model)
            yield (from_bus, to_bus)
""","""        return [line.get_nodes(self.network_model) for line in self.lines]
""")
s=s.replace("""                B = 0
                if self.shunt_admittances is not None:
                    try:
                        B = np.imag(self.shunt_admittances[i][j])
                    except IndexError:
                        pass
""","""                B = self._shunt_susceptance(i, j)
""").replace("""    def loop_lines(self):""","""    def _shunt_susceptance(self, i, j):
        if self.shunt_admittances is None:
            return 0
        try:
            return np.imag(self.shunt_admittances[i][j])
        except IndexError:
            return 0

    def loop_lines(self):""")
s=s.replace("""            g = np.real(self.admittances[idx][idx])
            b = np.imag(self.admittances[idx][idx])
            yield (idx, g, b, line)""","""            y = self.admittances[idx][idx]
            yield (idx, np.real(y), np.imag(y), line)""")
open(p,'w').write(s)
EOF
"$(dirname "$0")"/rt.sh H3 <<'EOF'
from ed import sub
sub("models/components/regulator.py",("""        old_position = self.tap_position
        if self.tap_position + increment >= self.raise_taps:
            self.tap_position = self.raise_taps
        elif self.tap_position + increment <= -self.lower_taps:
            self.tap_position = -self.lower_taps
        else:
            self.tap_position += increment

        if self.reg_type == RegType.A:
            self.turn_ratio = (1 + (self.ar_step * self.tap_position)) ** -1
        elif self.reg_type == RegType.B:
            self.turn_ratio = 1 - (self.ar_step * self.tap_position)
        else:
            raise Exception(f"Unknown regulator type {self.reg_type}")
        
        self.transformer.tr = self.turn_ratio

        return old_position != self.tap_position
""","""        old_position = self.tap_position
        new_position = old_position + increment
        if new_position >= self.raise_taps:
            new_position = self.raise_taps
        elif new_position <= -self.lower_taps:
            new_position = -self.lower_taps

        self.tap_position = new_position
        self.turn_ratio = self._ratio_at(new_position)
        self.transformer.tr = self.turn_ratio

        return new_position != old_position

    def _ratio_at(self, tap):
        change = self.ar_step * tap
        if self.reg_type == RegType.A:
            return 1 / (1 + change)
        if self.reg_type == RegType.B:
            return 1 - change
        raise Exception(f"Unknown regulator type {self.reg_type}")
"""))
sub("models/components/slack.py",("""        self.Vr_set = self.Vset * math.cos(self.ang_rad)
        self.Vi_set = self.Vset * math.sin(self.ang_rad)
""","""        set_point = cmath.rect(Vset, ang)
        self.Vr_set = set_point.real
        self.Vi_set = set_point.imag
"""),("import math","import math\nimport cmath"))
sub("models/components/capacitor.py",("""            f_r, f_i = (self.from_bus.node_Vr, self.from_bus.node_Vi)
            v_r = v[f_r]
            v_i = v[f_i]

            v_magnitude = abs(complex(v_r,v_i))
            if v_magnitude > self.high_voltage:
                if self.switch == CapSwitchState.OPEN:
                    self.switch = CapSwitchState.CLOSED
                    adjustment_made = True
            if v_magnitude < self.low_voltage:
                if self.switch == CapSwitchState.CLOSED:
                    self.switch = CapSwitchState.OPEN
                    adjustment_made = True
""","""            v_magnitude = abs(v[self.from_bus.node_Vr] + 1j * v[self.from_bus.node_Vi])
            if v_magnitude > self.high_voltage and self.switch == CapSwitchState.OPEN:
                self.switch = CapSwitchState.CLOSED
                adjustment_made = True
            if v_magnitude < self.low_voltage and self.switch == CapSwitchState.CLOSED:
                self.switch = CapSwitchState.OPEN
                adjustment_made = True
"""),("""        if self.switch == CapSwitchState.OPEN:
            return []

        return build""","""        stamps = []
        if self.switch != CapSwitchState.OPEN:
            stamps = build"""),("""[self.G, self.B, 0])
""","""[self.G, self.B, 0])
        return stamps
"""))
sub("models/components/fuse.py",("""        i_r, i_i = self.get_current(v)
        i = complex(i_r, i_i)
        if abs(i) > self.current_limit:
            self.status = FuseStatus.BLOWN
            return True
    
        return False""","""        i_r, i_i = self.get_current(v)
        blown = (i_r ** 2 + i_i ** 2) ** 0.5 > self.current_limit
        if blown:
            self.status = FuseStatus.BLOWN

        return blown"""))
sub("models/components/switch.py",("""        if self.status == SwitchStatus.OPEN:
            return

        self.vs""","""        if self.status != SwitchStatus.OPEN:
            self.vs"""),("""            return []
            
        return self.vs.get_stamps()""","""            return list()
        else:
            return self.vs.get_stamps()"""))
sub("models/components/bus.py",("""        f_r, f_i = (self.node_Vr, self.node_Vi)
        v_estimate[f_r] = self.Vr_init if v_estimate[f_r] == 0 else v_estimate[f_r]
        v_estimate[f_i] = self.Vi_init if v_estimate[f_i] == 0 else v_estimate[f_i]
""","""        for (index, init) in ((self.node_Vr, self.Vr_init), (self.node_Vi, self.Vi_init)):
            if v_estimate[index] == 0:
                v_estimate[index] = init
"""),("""        if isinstance(__o, Bus):
            return __o.Bus == self.Bus
        else:
            return False""","""        return isinstance(__o, Bus) and __o.Bus == self.Bus"""),("""        if optimization_enabled:
            self.node_lambda_Vr = next(node_index)
            self.node_lambda_Vi = next(node_index)
        else:
            self.node_lambda_Vr = SKIP
            self.node_lambda_Vi = SKIP""","""        self.node_lambda_Vr = next(node_index) if optimization_enabled else SKIP
        self.node_lambda_Vi = next(node_index) if optimization_enabled else SKIP"""))
sub("models/components/voltagesource.py",("""Vset_r_eqn = Eq(Vr_set - (Vr_from - Vr_to))""","""Vset_r_eqn = Eq(Vr_set + Vr_to - Vr_from)"""))
EOF
