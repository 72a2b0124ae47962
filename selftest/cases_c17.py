T, B, O, C, L, G = 'rfTRL.py', 'rfBase.py', 'rfObject.py', 'rfCircuit.py', 'rfRLC.py', 'rfGTL.py'
DC = "other.__dict__[attr] = copy.deepcopy(val)"
CASES = [
    ('C17', 'base-shallow', [(B, DC, "other.__dict__[attr] = copy.copy(val)")], 'bad'),
    ('C17', 'base-blocks', [(B, DC, "other.__dict__[attr] = copy.deepcopy(val) if attr != 'blocks' else dict(val)")], 'bad'),
    ('C17', 'base-arrays', [(B, DC, "other.__dict__[attr] = copy.deepcopy(val) if isinstance(val, (list, dict)) else val")], 'bad'),
    ('C17', 'rlc-kwargs', [(L, DC, "other.__dict__[attr] = copy.deepcopy(val) if attr != 'kwargs' else val")], 'bad'),
    ('C17', 'trl-solved', [(T, DC, "other.__dict__[attr] = copy.deepcopy(val) if attr not in ('solved', 'xpos') else val")], 'bad'),
    ('C17', 'trl-lost', [(T, "        for attr, val in self.__dict__.items():\n            try: \n", "        for attr, val in self.__dict__.items():\n            if attr == 'xpos':\n                continue\n            try: \n")], 'bad'),
    ('C17', 'obj-tables', [(O, DC, "other.__dict__[attr] = val if attr in ('fs', 'Ss') else copy.deepcopy(val)")], 'bad'),
    ('C17', 'obj-ports', [(O, DC, "other.__dict__[attr] = val if attr == 'ports' else copy.deepcopy(val)")], 'bad'),
    ('C17', 'obj-getstate-interp', [(O, "d.update(interpOK=False, interpA=None, interpM=None)", "d.update(interpA=None, interpM=None)")], 'bad'),
    ('C17', 'obj-setstate-names', [(O, "            if var not in ['fs', 'Ss','Zcs','Gms']:\n", "            if var not in ['fs', 'Ss','Zcs','Gms','xpos']:\n")], 'bad'),
    ('C17', 'obj-setstate-gms', [(O, "        self.Gms = np.array(d['Gms'], dtype=complex).reshape(len(d['Gms']), N)\n", "        self.Gms = np.array(d['Zcs'], dtype=complex).reshape(len(d['Zcs']), N)\n")], 'bad'),
    ('C17', 'obj-getstate-order', [(O, "        d['Ss'] = self.Ss.tolist()\n", "        d['Ss'] = self.Ss.transpose(0,2,1).tolist()\n")], 'bad'),
    ('C17', 'gtl-variables', [(G, "other.__dict__[attr] = deepcopy(val)", "other.__dict__[attr] = val")], 'bad'),
    # quiet
    ('C17', 'q-base-dict', [(B, "        for attr, val in self.__dict__.items():\n            try:\n                # print(f'copying {attr}')\n                " + DC, "        for attr in list(vars(self)):\n            try:\n                setattr(other, attr, copy.deepcopy(getattr(self, attr)))")], 'quiet'),
    ('C17', 'q-base-helper', [(B, DC, "other._put_(attr, copy.deepcopy(val))"), (B, "    def __copy__(self):\n        return self.__deepcopy__(self)\n", "    def _put_(self, attr, val):\n        self.__dict__[attr] = val\n\n    def __copy__(self):\n        return self.__deepcopy__({})\n")], 'quiet'),
    ('C17', 'q-obj-nocache', [(O, "                " + DC, "                other.__dict__[attr] = (copy.deepcopy(val) if attr not in ('interpA', 'interpM', 'interpOK')\n                                        else None if attr != 'interpOK' else False)")], 'quiet'),
    ('C17', 'q-obj-state', [(O, "        d['fs'] = self.fs.tolist()\n        d['Ss'] = self.Ss.tolist()\n        d['Zcs'] = self.Zcs.tolist()\n        d['Gms'] = self.Gms.tolist()\n", "        for a in ('fs', 'Ss', 'Zcs', 'Gms'):\n            d[a] = getattr(self, a).tolist()\n")], 'quiet'),
    ('C17', 'q-rlc-nosolution', [(L, "        debug and logident('<')\n        return other\n\n", "        other.f, other.S = None, None\n        debug and logident('<')\n        return other\n\n")], 'quiet'),
    ('C17', 'q-trl-new', [(T, "        other = type(self)(*self.args, **self.kwargs)\n", "        other = type(self).__new__(type(self))\n")], 'quiet'),
    ('C17', 'q-trl-nomemo', [(T, "        debug and tLogger.debug(ident(f'< circuit.__deepcopy__ {self.Id}', -1))\n", "        other.solved = {}\n        debug and tLogger.debug(ident(f'< circuit.__deepcopy__ {self.Id}', -1))\n")], 'quiet'),
]
