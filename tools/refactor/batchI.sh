"$(dirname "$0")"/rt.sh I1 <<'EOF'
from ed import sub
p="logic/network/networkmodel.py"
s=open(p).read()
s=s.replace("""        return self.buses + \\
            self.lines + \\
            self.transformers + \\
            self.slack + \\
            self.switches + \\
            self.generators + \\
            self.loads + \\
            self.misc
""","""        groups = (self.buses, self.lines, self.transformers, self.slack, self.switches, self.generators, self.loads, self.misc)
        return [element for group in groups for element in group]
""")
s=s.replace("""        for ele in self.get_all_elements():
            ele.assign_nodes(node_index, optimization_enabled)

        if self.optimization != None:
            self.optimization.assign_nodes(node_index, optimization_enabled)

        self.size_Y = next(node_index)

        self.matrix_map = {}
        for bus""","""        participants = list(self.get_all_elements())
        if optimization_enabled:
            participants.append(self.optimization)
        for participant in participants:
            participant.assign_nodes(node_index, optimization_enabled)

        self.size_Y = next(node_index)
        self._build_matrix_map()
        self.matrix_version = self.matrix_version + 1

    def _build_matrix_map(self):
        self.matrix_map = {}
        for bus""")
s=s.replace("""        #     self.matrix_map[switch.vs.Ii_index] = f"switch:{switch.from_node.NodeName}:{switch.to_node.NodePhase}:Ii"

        self.matrix_version += 1
""","")
s=s.replace("""            (vr_idx, vr_init) = bus.get_Vr_init()
            v_init[vr_idx] = BUS_Vr_FLAT if settings.flat_start else vr_init

            (vi_idx, vi_init) = bus.get_Vi_init()
            v_init[vi_idx] = BUS_Vi_FLAT if settings.flat_start else vi_init
""","""            for ((idx, init), flat) in ((bus.get_Vr_init(), BUS_Vr_FLAT), (bus.get_Vi_init(), BUS_Vi_FLAT)):
                v_init[idx] = flat if settings.flat_start else init
""")
s=s.replace("""            v_init[generator.get_Q_index()] = (generator.Qmin + generator.Qmax) / 2 if settings.flat_start else generator.Qinit
""","""            if settings.flat_start:
                q = 0.5 * (generator.Qmin + generator.Qmax)
            else:
                q = generator.Qinit
            v_init[generator.get_Q_index()] = q
""")
s=s.replace("""        return super().get_all_elements() + self.regulators + self.fuses + self.capacitors""","""        elements = super().get_all_elements()
        elements = elements + self.regulators
        elements.extend(self.fuses)
        elements += self.capacitors
        return elements""")
open(p,'w').write(s)
EOF
"$(dirname "$0")"/rt.sh I2 <<'EOF'
from ed import sub
p="logic/graphanalyzer.py"
sub(p,("""            if self.G.has_node(bus.NodeName):
                self.G.nodes[bus.NodeName]["bus_list"].append(bus)
                # bus_list.append(bus)
                # nx.set_node_attributes(self.G, [bus.NodeName, {"bus_list", bus_list}])
            else:
                self.G.add_node(bus.NodeName, bus_list=[bus])
""","""            name = bus.NodeName
            if not self.G.has_node(name):
                self.G.add_node(name, bus_list=[])
            self.G.nodes[name]["bus_list"].append(bus)
"""),("""        for element in network.get_all_elements():
            for (from_bus, to_bus) in element.get_connections():
                if type(element) == Load:
                    self.node_color[from_bus.NodeName]="darkred"
                elif from_bus == GROUND or to_bus == GROUND or from_bus.NodeName == to_bus.NodeName:
                    continue
                elif not (self.G.has_node(from_bus.NodeName) or self.G.has_node(to_bus.NodeName)):
                    continue
                else:
                    if self.G.has_edge(from_bus.NodeName, to_bus.NodeName):
                        if element not in self.G.edges[from_bus.NodeName, to_bus.NodeName]["element_list"]:
                            self.G.edges[from_bus.NodeName, to_bus.NodeName]["element_list"].append(element)
                    else:
                        self.G.add_edge(from_bus.NodeName, to_bus.NodeName, type="none", from_bus=from_bus, to_bus=to_bus, element_list=[element])
                    
                    self.edge_labels[(from_bus.NodeName, to_bus.NodeName)] += from_bus.NodePhase
                    
                    if type(element) == CenterTapTransformer or type(element) == Transformer:
                        self.edge_color[(from_bus.NodeName, to_bus.NodeName)] = "green"
                    elif type(element) == Switch:
                        self.edge_color[(from_bus.NodeName, to_bus.NodeName)] = "orange"
                    else:
                        self.edge_color[(from_bus.NodeName, to_bus.NodeName)] = "gray"
""","""        for element in network.get_all_elements():
            for connection in element.get_connections():
                self._add_connection(element, *connection)

    def _add_connection(self, element, from_bus, to_bus):
        if isinstance(element, Load):
            self.node_color[from_bus.NodeName]="darkred"
            return
        if GROUND in (from_bus, to_bus) or from_bus.NodeName == to_bus.NodeName:
            return
        u, v = from_bus.NodeName, to_bus.NodeName
        if not self.G.has_node(u) and not self.G.has_node(v):
            return

        if self.G.has_edge(u, v):
            elements = self.G.edges[u, v]["element_list"]
            if element not in elements:
                elements.append(element)
        else:
            self.G.add_edge(u, v, type="none", from_bus=from_bus, to_bus=to_bus, element_list=[element])

        self.edge_labels[(u, v)] += from_bus.NodePhase

        color = "gray"
        if type(element) in (CenterTapTransformer, Transformer):
            color = "green"
        elif type(element) == Switch:
            color = "orange"
        self.edge_color[(u, v)] = color
"""),("""        for vnom_island in vnom_islands:
            vnom = None
            for node_idx in vnom_island:
                bus = self.G.nodes[node_idx]["bus_list"][0]
                if vnom == None:
                    vnom = round(bus.V_Nominal)
                else:
                    if abs(bus.V_Nominal - vnom) > 10:
                        raise""","""        for vnom_island in vnom_islands:
            vnom = None
            for node_idx in vnom_island:
                bus = self.G.nodes[node_idx]["bus_list"][0]
                if vnom is None:
                    vnom = round(bus.V_Nominal)
                elif abs(vnom - bus.V_Nominal) > 10:
                        raise"""),
("""        non_xfmr_edges = [(u,v) for u,v,e in self.G.edges(data=True) if type(e['element_list'][0]) not in [CenterTapTransformer, Transformer, Regulator]]
""","""        transforming = (CenterTapTransformer, Transformer, Regulator)
        non_xfmr_edges = []
        for u, v, e in self.G.edges(data=True):
            if type(e['element_list'][0]) in transforming:
                continue
            non_xfmr_edges.append((u, v))
"""))
EOF
