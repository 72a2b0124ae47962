C, B = 'rfCircuit.py', 'rfBase.py'
CPOP = """                _kp = self.ports.index(_p)
                self.ports.pop(_kp)
                self.xpos.pop(_kp)
                _debug_"""
CASES = [
    ('C03', 'connect-xpos-kept', [(C, CPOP, "                _kp = self.ports.index(_p)\n                self.ports.pop(_kp)\n                _debug_")], 'bad'),
    ('C03', 'connect-xpos-first', [(C, CPOP, CPOP.replace("self.xpos.pop(_kp)", "self.xpos.pop(0)"))], 'bad'),
    ('C03', 'connect-new-two', [(C, "self.M, np.zeros((self.M.shape[0],2*len(newports)))", "self.M, np.zeros((self.M.shape[0],2*len(newports) if len(ports) > 2 else 1))")], 'bad'),
    ('C03', 'connect-eqns', [(C, "            self.eqns.append(f'C{m1} {port}')\n", "            if port not in newports or len(ports) < 3:\n                self.eqns.append(f'C{m1} {port}')\n")], 'bad'),
    ('C03', 'connect-port-twice', [(C, "            self.waves.append('->'+p)\n            self.waves.append('<-'+p) \n", "            self.waves.append('->'+p)\n            self.waves.append('->'+p) \n")], 'bad'),
    ('C03', 'terminate-E-xpos', [(C, "            self.E.pop(port)\n            _kp = self.ports.index(port)\n            self.ports.pop(_kp)\n            self.xpos.pop(_kp)\n", "            self.E.pop(port)\n            _kp = self.ports.index(port)\n            self.ports.pop(_kp)\n")], 'bad'),
    ('C03', 'terminate-xpos-last', [(C, "                self.ports.pop(_kp)\n                self.xpos.pop(_kp)\n                \n            except ValueError:", "                self.ports.pop(_kp)\n                self.xpos.pop()\n                \n            except ValueError:")], 'bad'),
    ('C03', 'terminate-still-free', [(C, "            self.E.pop(port)\n            _kp = self.ports.index(port)\n            self.ports.pop(_kp)\n            self.xpos.pop(_kp)\n", "            self.E.pop(port)\n")], 'bad'),
    ('C03', 'deembed-columns', [(C, "np.zeros((self.M.shape[0],2*len(IntPorts)),dtype=complex)", "np.zeros((self.M.shape[0],2),dtype=complex)")], 'bad'),
    ('C03', 'deembed-xpos', [(C, "            self.xpos.append(self.xpos[self.ports.index(dp)])\n            self.nodes[ip]", "            self.xpos.append(self.xpos[-1])\n            self.nodes[ip]")], 'bad'),
    ('C03', 'deembed-ext-free', [(C, "            for _p in (dp, ep):\n                _kp", "            for _p in (dp,):\n                _kp")], 'bad'),
    ('C03', 'addblock-xpos-reversed', [(C, "xpos = [relpos + x for p, x in zip(oports, RFobj.xpos)]", "xpos = [relpos + x for p, x in zip(oports, sorted(RFobj.xpos, reverse=True))]")], 'bad'),
    ('C03', 'addblock-one-port', [(C, "            xpos = [relpos for p in oports]\n", "            xpos = [relpos] * max(2, N)\n")], 'bad'),
    ('C03', 'extS-xpos-order', [(C, "                self.xpos = [self.xpos[self.ports.index(p)] \n                             for p in self.Portnames]\n", "")], 'bad'),
    ('C03', 'extS-xpos-inverse', [(C, "self.xpos = [self.xpos[self.ports.index(p)] \n                             for p in self.Portnames]", "self.xpos = [self.xpos[self.Portnames.index(p)] \n                             for p in self.ports]")], 'bad'),
    # quiet
    ('C03', 'q-connect-filter', [(C, "                _kp = self.ports.index(_p)\n                self.ports.pop(_kp)\n                self.xpos.pop(_kp)\n                _debug_", "                keep = [k for k, q in enumerate(self.ports) if q != _p]\n                self.ports = [self.ports[k] for k in keep]\n                self.xpos = [self.xpos[k] for k in keep]\n                _debug_")], 'quiet'),
    ('C03', 'q-deembed-loop', [(C, "            self.waves += [f'->{ip}', f'<-{ip}']\n            self.ports.append(ip)\n            self.xpos.append(self.xpos[self.ports.index(dp)])\n            self.nodes[ip] = {'x' : self.xpos[-1]}\n", "            x = self.xpos[self.ports.index(dp)]\n            self.waves.extend((f'->{ip}', f'<-{ip}'))\n            self.ports.append(ip)\n            self.xpos.append(x)\n            self.nodes[ip] = {'x' : x}\n")], 'quiet'),
    ('C03', 'q-terminate-helper', [(C, "            self.E.pop(port)\n            _kp = self.ports.index(port)\n            self.ports.pop(_kp)\n            self.xpos.pop(_kp)\n", "            del self.E[port]\n            self._drop_(port)\n"), (C, "    def extS(self):\n", "    def _drop_(self, port):\n        k = self.ports.index(port)\n        del self.ports[k]\n        del self.xpos[k]\n\n    def extS(self):\n")], 'quiet'),
    ('C03', 'q-connect-columns', [(C, "        for p in newports:\n            self.waves.append('->'+p)\n            self.waves.append('<-'+p) \n", "        self.waves += [w + p for p in newports for w in ('->', '<-')]\n        for p in newports:\n")], 'quiet'),
]
