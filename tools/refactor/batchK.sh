"$(dirname "$0")"/rt.sh K1 <<'EOF'
p="logic/network/timeseriesprocessor.py"
s=open(p).read()
def r(a,b):
    global s
    assert a in s, a
    s=s.replace(a,b)
i=s.index("        slack_to_remove = []"); j=s.index("    # Ground is not listed")
s=s[:i]+'''        network = self.powerflow.network
        network.slack = [s for s in network.slack if s.bus in network.buses]
        network.generators = [g for g in network.generators if g.bus in network.buses]
        network.loads = [l for l in network.loads if self.is_on_island(l.from_bus) and self.is_on_island(l.to_bus)]
        network.fuses = self._keep_connected(network.fuses, "interior_node")
        network.regulators = self._keep_connected(network.regulators, "current_node")
        network.capacitors = [c for c in network.capacitors if all(self.is_on_island(b) for b in (c.from_bus, c.to_bus))]

    def _keep_connected(self, devices, inner):
        buses = self.powerflow.network.buses
        kept = []
        for device in devices:
            if device.from_node in buses and device.to_node in buses:
                kept.append(device)
                continue
            node = getattr(device, inner)
            if node in buses:
                buses.remove(node)
        return kept

'''+s[j:]
r('''            try:
                load_obj = self.powerflow.network.load_name_map[load_name]
            except:
                continue
            try:
                magnitude = self.load_data[load_name][hour]
            except:
                continue
''','''            load_obj = self.powerflow.network.load_name_map.get(load_name)
            if load_obj is None:
                continue
            try:
                magnitude = self.load_data[load_name][hour]
            except:
                continue
''')
r('''            if load_name not in self.load_angles:
                self.load_angles[load_name] = math.atan2(load_obj.Q,load_obj.P)
            angle = self.load_angles[load_name]
''','''            angle = self.load_angles.setdefault(load_name, math.atan2(load_obj.Q, load_obj.P))
''')
r('''            load_name = f"cl_{phase_load.load_num}{phase_load.phase}"
''','''            load_name = "cl_" + str(phase_load.load_num) + phase_load.phase
''')
r('''        while self.adjust_generator_output(snapshot_results):
            snapshot_results = self.powerflow.execute()
        if snapshot_results.is_success and self.violates_equipment_ratings(snapshot_results):
            snapshot_results.violates_equipment_ratings = True
''','''        while True:
            if not self.adjust_generator_output(snapshot_results):
                break
            snapshot_results = self.powerflow.execute()
        if snapshot_results.is_success:
            if self.violates_equipment_ratings(snapshot_results):
                snapshot_results.violates_equipment_ratings = True
''')
open(p,'w').write(s)
EOF
"$(dirname "$0")"/rt.sh K2 <<'EOF'
p="logic/network/timeseriesprocessor.py"
s=open(p).read()
def r(a,b):
    global s
    assert a in s, a
    s=s.replace(a,b)
i=s.index("                    for element in edge["); j=s.index("                for bus in ga.G.nodes[node]['bus_list']:\n                    self.power")
s=s[:i]+'''                    for element in edge["element_list"]:
                        self._drop_element(element)
'''+s[j:]
r('''    # Ground is not listed''','''    @staticmethod
    def _discard(collection, item):
        if item in collection:
            collection.remove(item)

    def _drop_element(self, element):
        network = self.powerflow.network
        if isinstance(element, CenterTapTransformer):
            self._discard(network.transformers, element)
            for node in (element.coils[0].primary_node, element.coils[1].sending_node, element.coils[2].sending_node):
                self._discard(network.buses, node)
        elif isinstance(element, Transformer):
            self._discard(network.transformers, element)
        elif type(element) is Switch:
            self._discard(network.switches, element)
        else:
            self._discard(network.lines, element)

    # Ground is not listed''')
i=s.index("        exceeds_rating = False"); j=s.index("    # Run for multiple snapshots")
s=s[:i]+'''        checks = (self._lines_ok, self._transformers_ok, self._voltages_ok)
        results = [check(snapshot_results) for check in checks]
        return not all(results)

    def _lines_ok(self, snapshot_results):
        ok = True
        for line in self.powerflow.network.lines:
            for (idx, g, b, phase_line) in line.loop_lines():
                limit = line.ampacities[idx]
                if limit is None:
                    continue
                result = LineResult(phase_line, snapshot_results, g, b)
                current = math.hypot(result.get_Ir(), result.get_Ii())
                if current > limit:
                    print(f"Line current {current} exceeds emergency ampacity {limit}")
                    ok = False
        return ok

    def _transformers_ok(self, snapshot_results):
        ok = True
        for xfmr in self.powerflow.network.transformers:
            result_type = CenterTapTransformerResult if isinstance(xfmr, CenterTapTransformer) else TransformerResult
            result = result_type(xfmr, snapshot_results)
            power = (result.get_P() ** 2 + result.get_Q() ** 2) ** 0.5
            if xfmr.power_rating is not None and power > xfmr.power_rating:
                print(f"Transformer power {result} exceeds rated power {xfmr.power_rating}")
                ok = False
        return ok

    def _voltages_ok(self, snapshot_results):
        bad = [b for b in snapshot_results.bus_results if abs(b.V_mag - b.bus.V_Nominal) / b.bus.V_Nominal >= VOLTAGE_DEVIATION_THRESHOLD]
        for b in bad:
            print(f"Bus voltage magnitude {b.V_mag} is outside acceptable range of expected voltage magnitude {b.bus.V_Nominal}")
        return len(bad) == 0

'''+s[j:]
r('''        swingbusoutputs = [(gen_result.generator.bus.NodePhase, gen_result.P, gen_result.Q) for gen_result in snapshot_results.generator_results if gen_result.generator.bus.NodeName == self.settings.artificialswingbus]
        if sum(abs(complex(p, q)) for phase,p,q in swingbusoutputs) < self.THRESHOLD:
''','''        swingbusoutputs = []
        total = 0
        for gen_result in snapshot_results.generator_results:
            bus = gen_result.generator.bus
            if bus.NodeName != self.settings.artificialswingbus:
                continue
            swingbusoutputs.append((bus.NodePhase, gen_result.P, gen_result.Q))
            total += abs(complex(gen_result.P, gen_result.Q))
        if total < self.THRESHOLD:
''')
open(p,'w').write(s)
EOF
"$(dirname "$0")"/rt.sh K3 <<'EOF'
from ed import sub
sub("run_solver.py",("""    case = args.case
    loadfile = args.loadfile
    loadstart = args.loadstart
    loadend = args.loadend
""","""    case, loadfile, loadstart, loadend = args.case, args.loadfile, args.loadstart, args.loadend
"""),("""    network = NetworkLoader(settings).from_file(case)
""","""    loader = NetworkLoader(settings)
    network = loader.from_file(case)
"""),("""        postprocessor = TimeSeriesProcessor(postprocessingsettings, powerflow)
        results = postprocessor.execute()
""","""        results = TimeSeriesProcessor(postprocessingsettings, powerflow).execute()
"""))
sub("logic/network/networkloader.py",("""        buses = raw_data['buses']

        loads = raw_data['loads']
        slack = raw_data['slack']
        generators = raw_data['generators']
        transformers = raw_data['xfmrs']
        lines = raw_data['branches']
        shunts = raw_data['shunts']

        network = TxNetworkModel()
        network.buses = buses
        network.loads = loads
        network.slack = slack
        network.generators = generators
        network.transformers = transformers
        network.lines = lines
        network.shunts = shunts
""","""        network = TxNetworkModel()
        attribute_keys = {'buses': 'buses', 'loads': 'loads', 'slack': 'slack', 'generators': 'generators', 'transformers': 'xfmrs', 'lines': 'branches', 'shunts': 'shunts'}
        for attribute, key in attribute_keys.items():
            setattr(network, attribute, raw_data[key])
"""),("""        if ".glm" in network_file:
            network = self.__parse_glm_network(network_file)
        elif ".RAW" in network_file:
            network =  self.__parse_RAW_network(network_file)
        else:
            raise Exception("Unknown network file format")

        return network
""","""        if ".glm" in network_file:
            return self.__parse_glm_network(network_file)
        if ".RAW" in network_file:
            return self.__parse_RAW_network(network_file)
        raise Exception("Unknown network file format")
"""))
sub("logic/network/loadfactor.py",("""        load.P *= loadfactor_P
        load.Q *= loadfactor_Q""","""        load.P, load.Q = load.P * loadfactor_P, load.Q * loadfactor_Q"""))
sub("models/optimization/L2infeasibility.py",("""        self.infeasibility_currents = []
        self.infeasibility_currents: List[L2InfeasibilityCurrent]

        for bus in buses:
            current = L2InfeasibilityCurrent(bus)
            self.infeasibility_currents.append(current)
""","""        self.infeasibility_currents: List[L2InfeasibilityCurrent] = [L2InfeasibilityCurrent(bus) for bus in buses]
"""),("""        stamps = []
        for infeas_current in self.infeasibility_currents:
            stamps += infeas_current.get_stamps()
        return stamps""","""        return [stamp for current in self.infeasibility_currents for stamp in current.get_stamps()]"""),
("""        index_map = {}
        index_map[Iir] = self.node_Ir_inf
        index_map[Iii] = self.node_Ii_inf
        index_map[Lr] = self.bus.node_lambda_Vr
        index_map[Li] = self.bus.node_lambda_Vi
""","""        index_map = {Iir: self.node_Ir_inf, Iii: self.node_Ii_inf, Lr: self.bus.node_lambda_Vr, Li: self.bus.node_lambda_Vi}
"""))
EOF
