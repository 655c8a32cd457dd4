"$(dirname "$0")"/rt.sh L1 <<'EOF'
p="ditto/readers/gridlabd/load_parser.py"
s=open(p,newline="").read().replace("\r\n","\n")
i=s.index("        try:\n            #The spec says"); j=s.index("        try:\n            try:\n                phaseload = self.__create_phaseload(model, phase, is_delta)\n                base_power")
s=s[:i]+'''        # The spec says `constant_power_X`...but a bunch of files don't conform.
        for prefix, kind in self._kinds:
            value = self._complex_property(obj, f"{prefix}_{phase}")
            if value is None or value == 0:
                continue
            phaseload = self.__create_phaseload(model, phase, is_delta)
            if kind == 1:
                phaseload.p, phaseload.q = value.real, value.imag
            elif kind == 2:
                phaseload.z = value
            else:
                phaseload.i_const = value
            phaseload.model = kind
            yield phaseload

'''+s[j:]
s=s.replace('''class LoadParser:
''','''class LoadParser:
    # property prefix, opendss model number
    _kinds = [("power", 1), ("constant_power", 1), ("impedance", 2), ("constant_impedance", 2), ("constant_current", 5)]

    @staticmethod
    def _complex_property(obj, name):
        try:
            return complex(obj[name])
        except AttributeError:
            return None

''')
a=s.index("        if is_delta:\n            if phase ==");b=s.index("        phaseload.p = 0  # Default")
s=s[:a]+'''        delta_pairs = {"A": "AB", "B": "BC", "C": "CA"}
        phaseload.phase = delta_pairs.get(phase, phase) if is_delta else phase
'''+s[b:]
open(p,"w").write(s)
EOF
"$(dirname "$0")"/rt.sh L2 <<'EOF'
p="ditto/readers/gridlabd/line_impedance.py"
s=open(p,newline="").read().replace("\r\n","\n")
i=s.index("    phase_list = [('C', 2)"); j=s.index("    return reduced_matrix",i)
s=s[:i]+'''    kept = [ind for ind, phase in enumerate("ABC") if phase in phases]

    return reduced_matrix[np.ix_(kept, kept)]
'''+s[j+len("    return reduced_matrix\n"):]
i=s.index("def kron_reduction")
s=s[:i]+'''def kron_reduction(Zij, Zin, Znj, Znn):
    Znn = np.atleast_2d(Znn)
    return Zij - Zin @ np.linalg.inv(Znn) @ Znj
'''
open(p,"w").write(s)
EOF
"$(dirname "$0")"/rt.sh L3 <<'EOF'
p="ditto/readers/gridlabd/line_impedance.py"
s=open(p,newline="").read().replace("\r\n","\n")
i=s.index("def compute_overhead_impedance"); j=s.index("    #We uses the phases list from")
s=s[:i]+'''def compute_overhead_impedance(wire_list, distances, phases, has_neutral, freq=60, resistivity=100, kron_reduce=True):
    matrix = np.zeros((4,4), dtype=complex)

    for i, wire_i in enumerate(wire_list):
        row = rev_lookup[wire_i.phase]
        if wire_i.resistance is not None and wire_i.gmr is not None:
            matrix[row, row] = calc_Zii(wire_i.resistance, wire_i.gmr, False)
        else:
            logger.debug("Warning: resistance or GMR is missing from wire")
        for j, wire_j in enumerate(wire_list[i + 1:], i + 1):
            column = rev_lookup[wire_j.phase]
            z = calc_Zij(distances[i][j], False)
            matrix[row, column] = z
            matrix[column, row] = z

'''+s[j:]
i=s.index("def calc_Zii"); j=s.index("def kron_reduction")
s=s[:i]+'''def _earth(is_underground):
    if is_underground:
        return resistance_of_dirt_underground, conductor_dirt_distance_factor_underground
    return resistance_of_dirt_overhead, conductor_dirt_distance_factor_overhead

def calc_Zij(Dij, is_underground, resistivity = 100, freq = 60):
    #Eqn 4.42, in ohms/mile
    r_d, factor = _earth(is_underground)
    return complex(r_d, 0.12134 * (factor - math.log(Dij)))

def calc_Zii(r_i, GMRi, is_underground, resistivity = 100, freq = 60):
    #Eqn 4.41, in ohms/mile
    return r_i + calc_Zij(GMRi, is_underground, resistivity, freq)

'''+s[j:]
open(p,"w").write(s)
EOF
"$(dirname "$0")"/rt.sh L4 <<'EOF'
p="logic/network/parsers/threephase/transformerparser.py"
s=open(p,newline="").read().replace("\r\n","\n")
def r(a,b):
    global s
    assert s.count(a)==1,(s.count(a),a)
    s=s.replace(a,b)
i=s.index('        if primary_coil.connection_type == "D":\n            nominal_voltage_primary'); j=s.index("        turn_ratio = nominal_voltage_primary")
s=s[:i]+'''        nominal_voltage_primary = self.coil_voltage(primary_coil)
        nominal_voltage_secondary = self.coil_voltage(secondary_coil)

'''+s[j:]
i=s.index("        for (pos_phase_1"); j=s.index("            # Values for the secondary coil stamps")
s=s[:i]+'''        for (pos_phase_1, neg_phase_1, pos_phase_2, neg_phase_2) in phase_list:
            from_bus_pos, from_bus_neg = [self.terminal(primary_coil, p) for p in (pos_phase_1, neg_phase_1)]
            to_bus_pos, to_bus_neg = [self.terminal(secondary_coil, p) for p in (pos_phase_2, neg_phase_2)]

'''+s[j:]
i=s.index("            r = secondary_coil.resistance *"); j=s.index("            xfmr = Transformer(")
s=s[:i]+'''            z_base = nominal_voltage_secondary * nominal_voltage_secondary / secondary_coil.rated_power
            z = complex(secondary_coil.resistance, secondary_coil.reactance) * z_base
            r, x = z.real, z.imag

'''+s[j:]
i=s.index("def get_phase_list"); j=s.index("class PrimaryTransformerCoil")
s=s[:i]+'''def get_phase_list(primary_coil, secondary_coil, phases):
    following = dict(zip(phases, phases[1:] + phases[:1]))
    def ends(coil, phase):
        return (phase, following[phase] if coil.connection_type == CONNECTION_TYPE_DELTA else NEUTRAL)
    return [ends(primary_coil, phase) + ends(secondary_coil, phase) for phase in phases]

'''+s[j:]
r('''    def create_three_phase_transformer(''','''    @staticmethod
    def coil_voltage(coil):
        # Delta coils are between phases
        return coil.nominal_voltage * (math.sqrt(3) if coil.connection_type == CONNECTION_TYPE_DELTA else 1)

    @staticmethod
    def terminal(coil, phase):
        #Todo: grounded vs ungrounded wye.
        return GROUND if phase == NEUTRAL else coil.phase_connections[phase]

    def create_three_phase_transformer(''')
open(p,"w").write(s)
EOF
"$(dirname "$0")"/rt.sh L5 <<'EOF'
p="ditto/readers/gridlabd/line_impedance.py"
s=open(p,newline="").read().replace("\r\n","\n")
i=s.index("def compute_overhead_capacitance"); j=s.index("    #See eqn's 5.9 and 5.10.")
k=s.index("    if has_neutral:\n        #Eqn 5.12"); l=s.index("    C = np.linalg.inv(P_abc)")
s=s[:i]+'''def compute_overhead_capacitance(wire_list, distances, freq = 60):
    if any(wire.diameter is None for wire in wire_list):
        return None

    rows = [rev_lookup[wire.phase] for wire in wire_list]
    heights = np.array([distances[row][rev_lookup["E"]] for row in rows])
    if any(height == -1 for height in heights):
        return None

    has_neutral = any(wire.phase == "N" for wire in wire_list)
    radii = np.array([wire.diameter / 24 for wire in wire_list])
    between = distances[np.ix_(rows, rows)]
    image = np.sqrt(between ** 2 + 4 * np.outer(heights, heights))
    P_primitive = 11.17689 * np.log(image / (between + np.diag(radii)))

'''+s[k:]
open(p,"w").write(s)
EOF
"$(dirname "$0")"/rt.sh L6 <<'EOF'
p="ditto/readers/gridlabd/read.py"
s=open(p,newline="").read()
# one helper for the conductors of overhead and underground lines
def block(start):
    i=s.index("                    try:\n                        conna = config[", start)
    j=s.index("                        conductors[api_wire] = connn\n", i)
    j=s.index("pass\n", j)+5
    return i,j
i,j=block(s.index('obj_type == "overhead_line"')); s=s[:i]+"                    conductors = self._wires(model, config)\n"+s[j:]
i,j=block(s.index('obj_type == "underground_line"')); s=s[:i]+"                    conductors = self._wires(model, config)\n"+s[j:]
a="    def parse(self, model, origin"
s=s.replace(a,'''    @staticmethod
    def _wires(model, config):
        """wires and the names of their conductors"""
        conductors = {}
        for phase in ["A", "B", "C", "N"]:
            conductor_name = getattr(config, f"_conductor_{phase}", None)
            if conductor_name is None:
                continue
            wire = Wire(model)
            wire.phase = phase
            conductors[wire] = conductor_name
        return conductors

'''+a,1)
open(p,"w").write(s)
EOF
"$(dirname "$0")"/rt.sh L7 <<'EOF'
p="logic/network/parsers/threephase/threephaseparser.py"
s=open(p,newline="").read().replace("\r\n","\n")
def r(a,b):
    global s
    assert s.count(a)==1,(s.count(a),a)
    s=s.replace(a,b)
i=s.index("                if phase_capacitor.phase == \"A\" and hasattr"); j=s.index("            network_model.capacitors.append(capacitor)")
s=s[:i]+'''                state = getattr(gld_cap, "_switch" + phase_capacitor.phase, None)
                if state is not None:
                    capacitor.switch = CapSwitchState[state]

'''+s[j:]
i=s.index("            mode = CapacitorMode["); j=s.index("            parent_bus = network_model.bus_name_map[gld_cap")
s=s[:i]+'''            mode = self.get_capacitor_mode(gld_cap, model)

'''+s[j:]
r("    def create_capacitor(",'''    def get_capacitor_mode(self, gld_cap, model):
        mode = CapacitorMode[getattr(gld_cap, "_control", "MANUAL")]
        thresholds = (model.high, model.low)
        if mode is CapacitorMode.VOLT and None in thresholds:
            return CapacitorMode.MANUAL
        return mode

    def create_capacitor(''')
i=s.index("        vlow = band_center"); j=s.index("        raise_taps = int")
s=s[:i]+'''        half = band_width / 2
        vlow, vhigh = (band_center + sign * half for sign in (-1, 1))

'''+s[j:]
r("ar_step = (model.regulation * 2) / (model.highstep + model.lowstep)","ar_step = 2 * model.regulation / sum([model.highstep, model.lowstep])")
open(p,"w").write(s)
EOF
"$(dirname "$0")"/rt.sh L8 <<'EOF'
p="logic/network/parsers/threephase/threephaseparser.py"
s=open(p,newline="").read().replace("\r\n","\n")
def r(a,b):
    global s
    assert s.count(a)==1,(s.count(a),a)
    s=s.replace(a,b)
i=s.index("        for model in self.ditto_store.models:\n\n            if isinstance(model, ditto.models.node.Node)"); j=s.index("    def create_bus(self, network_model, v_mag")
s=s[:i]+'''        for model in self.ditto_store.models:
            is_source = isinstance(model, ditto.models.power_source.PowerSource)
            if not is_source and not isinstance(model, ditto.models.node.Node):
                continue
            is_slack = is_source or getattr(model, "_bustype", None) == "SWING"
            for phase in model.phases:
                if phase not in self._phase_to_angle:
                    continue
                bus, v_mag, v_ang = self.find_or_create_bus(network_model, model, phase)
                if is_slack:
                    network_model.slack.append(Slack(bus, v_mag, v_ang, 0, 0))

    def initial_voltage(self, model, phase):
        if phase not in ("1", "2"):
            try:
                voltage = getattr(model, "voltage_" + phase)
                return abs(voltage), cmath.phase(voltage)
            except Exception:
                pass
        return model.nominal_voltage, self._phase_to_angle[phase]

    def find_or_create_bus(self, network_model, model, phase):
        key = f"_{phase}"
        names = network_model.bus_name_map
        if model.parent is not None:
            #For now, just map any child nodes back to their parent.
            names[model.name + key] = names[model.parent + key]
            return names[model.name + key], None, None
        if model.connecting_element is not None:
            return names[model.connecting_element + key], None, None
        v_mag, v_ang = self.initial_voltage(model, phase)
        bus = self.create_bus(network_model, v_mag, v_ang, model.name, phase, False)
        leg = {"1": (-60.0, 103.92), "2": (60.0, -103.92)}.get(phase)
        if leg:
            bus.Vr_init, bus.Vi_init = leg
        return bus, v_mag, v_ang

'''+s[j:]
open(p,"w").write(s)
EOF
"$(dirname "$0")"/rt.sh L9 <<'EOF'
p="ditto/readers/gridlabd/read.py"
s=open(p).read()
def r(a,b):
    global s
    assert s.count(a)==1,(s.count(a),a)
    s=s.replace(a,b)
r('''        if row[:2] == "//":
            continue
        if row.find("//") != -1:
            row = row[:row.find("//")]
''','''        if row.startswith("//"):
            continue
        row = row.partition("//")[0]
''')
r('''                if len(row) > 0 and row.find(";") != -1:	
                    row = row[:row.find(";")]
''','''                row, _, _ = row.partition(";")
''')
r('''                    if row[-1] == "}" or row[-2:] == "};":
''','''                    if row.endswith("}"):
''')
r('''                    value = entries[1].replace('"', "")
''','''                    value = unquote(entries[1])
''')
r('''def read_gld_objects_and_schedules(''','''def unquote(text):
    return "".join(ch for ch in text if ch != '"')

def read_gld_objects_and_schedules(''')
r('''    inputfile = open(input_file, "r")
    all_rows = inputfile.readlines()
''','''    with open(input_file, "r") as inputfile:
        all_rows = inputfile.readlines()
''')
open(p,"w").write(s)
EOF
