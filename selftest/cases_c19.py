T, B, O, C, G, L, A, K = 'rfTRL.py', 'rfBase.py', 'rfObject.py', 'rfCircuit.py', 'ConvertGeneral.py', 'rfRLC.py', 'rfArcObj.py', 'rfCoupler.py'
R, W, X, H, S = 'ReadTSF.py', 'WriteTSF.py', 'rfGTL.py', '_check_3D_shape_.py', 'compareSs.py'
CASES = [
    ('C19', 'message-tuple', [(G, "                    np.array(Z).shape,))\n", "                    np.array(Z).shape))\n")], 'bad'),
    ('C19', 'message-shape', [(G, "                'convert_general: Z1 or Z2 shape not expected ... %r' % (\n                    np.array(Z).shape,))\n",
                               "                f'convert_general: Z1 or Z2 shape not expected ... {np.shape(Z)}')\n")], 'quiet'),
    ('C19', 'message-e', [(C, "            msg = e.message if hasattr(e,'message') else e\n", "            msg = e.message\n")], 'bad'),
    ('C19', 'message-kwargs', [(C, "unknown kwargs: {\", \".join([_ for _ in kwargs])}.')", "unknown kwargs: {\", \".join(kwargs.values())}.')")], 'bad'),
    ('C19', 'set-swallow', [(C, "                            if hasattr(blk['object'], 'set'):\n                                blk['object'].set(**params.get(blkID,{}))\n",
                             "                            try:\n                                blk['object'].set(**params.get(blkID,{}))\n                            except (AttributeError, ValueError):\n                                pass\n")], 'bad'),
    ('C19', 'list-callable', [(C, "            if hasattr(blk['object'], 'listBlocks'):\n                for sblkID in blk['object'].listBlocks():\n",
                               "            sub = getattr(blk['object'], 'listBlocks', None)\n            if sub:\n                for sblkID in sub():\n")], 'quiet'),
    ('C19', 'maxv-fallback', [(C, "                    except TypeError:\n                        print(blkID)\n                        print(obj)\n                        raise\n",
                               "                    except TypeError:\n                        VSW = {}\n")], 'bad'),
    ('C19', 'maxv-noreport', [(C, "                    except TypeError:\n                        print(blkID)\n                        print(obj)\n                        raise\n",
                               "                    except TypeError as e:\n                        raise TypeError(f'{blkID}: {e}') from e\n")], 'quiet'),
    ('C19', 'sets-range', [(O, "        except ValueError:\n            raise ValueError(f'{whoami}: Unexpected shape: {np.shape(S)}')\n",
                            "        except ValueError as e:\n            raise ValueError(f'{whoami}: Unexpected shape: {S.shape}, {e.message}')\n")], 'bad'),
    ('C19', 'sets-from', [(O, "            raise ValueError(f'{whoami}: Unexpected shape: {np.shape(S)}')\n",
                           "            raise ValueError(f'{whoami}: Unexpected shape: {np.shape(S)}') from None\n")], 'quiet'),
    ('C19', 'sortports-type', [(O, "                raise ValueError(\n                    'rfObject.sort", "                raise SystemError(\n                    'rfObject.sort")], 'bad'),
    ('C19', 'deembed-names', [(O, "{\",\".join(unknown)}", "{\",\".join(self.ports)}")], 'bad'),
    ('C19', 'compare-all', [(S, "        if any([len(Sk.shape) != 3 or ", "        if all([len(Sk.shape) != 3 or ")], 'bad'),
    ('C19', 'compare-order', [(S, "        if any([len(Sk.shape) != 3 or \n                Sk.shape[1] != Sk.shape[2] or\n                Sk.shape[1:]!= Ss[0].shape[1:] for Sk in Ss]):\n",
                               "        if not all(len(Sk.shape) == 3 and\n                   Sk.shape[1] == Sk.shape[2] and\n                   Sk.shape[1:] == Ss[0].shape[1:] for Sk in Ss):\n")], 'quiet'),
    ('C19', 'shape-pass', [(G, "            raise ValueError('type must be \"V\", \"P\" or \"G\" got %r' % typ)\n", "            raise TypeError('type must be \"V\", \"P\" or \"G\" got %r' % typ)\n")], 'bad'),
    ('C19', 'base-maxv', [(B, "        if unknown:\n            msg = (f'Unknown port", "        if len(unknown) == len(E):\n            msg = (f'Unknown port")], 'bad'),
    ('C19', 'base-set', [(B, "            if kw not in self.attrs:\n                raise ValueError(\n", "            if kw not in self.attrs and not hasattr(self, kw):\n                raise ValueError(\n")], 'bad'),
    ('C19', 'rlc-helper', [(L, "        for kw in kwargs:\n            if not hasattr(self, kw) or kw not in self.attrs:\n                raise ValueError(f'rfRLC.set: parameter {kw} not present')\n",
                            "        def check(kw):\n            if not hasattr(self, kw) or kw not in self.attrs:\n                raise ValueError(f'rfRLC.set: parameter {kw} not present')\n        for kw in kwargs:\n            check(kw)\n")], 'quiet'),
    ('C19', 'gtl-remap', [(X, "            elif kwAlt in aDict:\n                raise ValueError(\n", "            elif kwAlt in aDict and mandatory:\n                raise ValueError(\n")], 'bad'),
    ('C19', 'gtl-ports', [(X, "        if nports != len(self.Portnames):\n", "        if nports < len(self.Portnames):\n")], 'bad'),
    ('C19', 'exts-subset', [(C, "                if len(self.Portnames) != len(self.ports):\n                    raise ValueError(", "                if len(self.Portnames) < len(self.ports):\n                    raise ValueError(")], 'bad'),
    ('C19', 'read-hfss', [(R, "            raise IOError('Complex Port Impedance and Gamma data mismatch')\n", "            Gms = None\n")], 'bad'),
    ('C19', 'coupler-kc', [(K, "            if self.kcdB is not None:\n                raise ValueError(", "            if self.kcdB:\n                raise ValueError(")], 'quiet'),
    ('C19', 'maxv-undeclared', [(C, "            undef = [p for p in self.ports if p not in E]\n", "            undef = [p for p in E if p not in self.ports]\n")], 'bad'),
]
