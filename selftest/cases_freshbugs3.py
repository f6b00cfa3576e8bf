# third batch
SP, PR, MD, SZ, CV, PCL, RSK, RMD, FOL, LF, FU, PG, SE = ['reading/sigproc.py', 'reading/presto.py', 'metadata.py', 'serialization.py', 'pipeline/config_validation.py',
    'pipeline/peak_cluster.py', 'apps/rseek.py', 'running_medians.py', 'folding.py', 'libffa.py', 'ffautils.py', 'periodogram.py', 'search.py']
PHP = 'cpp/periodogram.hpp'
bug('C21', SP, ("        keydb = sigproc_keydb.copy()\n", ""))
bug('C21', SP, ("        val, = struct.unpack('d', fobj.read(8))", "        val, = struct.unpack('f', fobj.read(4))"))
bug('C21', SP, ("        attrs[key] = val\n", "        attrs.setdefault(key, val)\n        if len(attrs) == len(keydb):\n            break\n"))
bug('C21', SP, ("    fobj.seek(0)\n", ""), ("    flag = read_str(fobj)\n", "    flag = read_str(fobj).strip()\n"))
bug('C21', SP, ("    atype = keydb.get(key, None)\n", "    atype = keydb.get(key.lower(), None)\n"))
bug('C21', SP, ("    atype = keydb.get(key, None)\n", "    atype = keydb.get(key, sigproc_keydb.get(key.strip(), float))\n"))
bug('C21', SP, ('    "signed": bool\n', '    "signed": int\n'))
bug('C21', SP, ("    return sign * (hh + mm / 60.0 + ss / 3600.0)", "    return sign * hh + mm / 60.0 + ss / 3600.0"))
bug('C21', SP, ("        return self['nchans'] * self['nbits'] // 8", "        return self['nbits'] // 8 or 1"))
bug('C21', SP, ("        return (os.path.getsize(self.fname) - self.bytesize) // self.bytes_per_sample", "        return self.get('nsamples') or (os.path.getsize(self.fname) - self.bytesize) // self.bytes_per_sample"))
bug('C22', PR, ("    val = line[SEP_COLUMN+1:].strip()", "    val = line.split(SEP)[1].strip()"))
bug('C22', PR, ("    return int(s) != 0", "    return bool(s)"))
bug('C22', PR, ("    if not (len(line) > SEP_COLUMN and line[SEP_COLUMN] == SEP):", "    if SEP not in line[SEP_COLUMN - 1:]:"))
bug('C22', PR, ("    lines = text.strip('\\n').splitlines()", "    lines = [l for l in text.splitlines() if SEP in l]"))
bug('C22', PR, ("    num_onoff = len(items['onoff_pairs'])\n", "    num_onoff = min(len(items['onoff_pairs']), 100)\n"))
bug('C22', PR, ("        items['bandwidth'] = p(4, float)\n        items['nchan'] = p(5, int)\n        items['cbw'] = p(6, float)", "        items['bandwidth'] = p(4, float)\n        items['nchan'] = p(5, int)\n        items['cbw'] = items['bandwidth'] / items['nchan']"))
bug('C22', PR, ("self.fname.rsplit('.', maxsplit=1)[0] + '.dat'", "self.fname.split('.', maxsplit=1)[0] + '.dat'"))
bug('C22', PR, ("        return numpy.fromfile(self.data_fname, dtype=numpy.float32)", "        return numpy.fromfile(self.data_fname, dtype=numpy.float32, count=self['nsamp'])"))
bug('C22', PR, ("unit=(uu.hour, uu.degree))", "unit=(uu.degree, uu.degree))"))
bug('C23', MD, ("    Optional('tobs'): Or(And(float, lambda x: x > 0), None),", "    Optional('tobs'): Or(And(float, lambda x: x >= 0), None),"))
bug('C23', MD, ("        SCHEMA.validate(items)\n        super(Metadata, self).__init__(items)\n", "        super(Metadata, self).__init__(items)\n        if not isinstance(items, Metadata):\n            SCHEMA.validate(items)\n"))
bug('C23', MD, ("                self.setdefault(k.schema, None)", "                self[k.schema] = self.get(k.schema) or None"))
bug('C23', MD, ("        attrs['tobs'] = attrs['tsamp'] * attrs['nsamp']", "        attrs.setdefault('tobs', attrs['tsamp'] * (attrs['nsamp'] - 1))"))
bug('C23', MD, ("        attrs['dm'] = attrs.get('refdm', None)", "        attrs['dm'] = attrs.get('refdm', 0.0)"))
bug('C23', MD, ("        attrs['mjd'] = attrs.get('tstart', None)", "        attrs.setdefault('mjd', attrs.get('obs_date'))"))
bug('C23', MD, ("        attrs['fname'] = os.path.realpath(inf.fname)\n", "        attrs['fname'] = os.path.basename(inf.fname)\n"))
bug('C20', SZ, ("base64.b64encode(np.ascontiguousarray(obj).data)", "base64.b64encode(obj.tobytes('A'))"))
bug('C20', SZ, ("'dtype': str(obj.dtype),", "'dtype': obj.dtype.kind + str(obj.dtype.itemsize),"))
bug('C20', SZ, (".reshape(items['shape']).copy()", ".reshape(items['shape'])"))
bug('C20', SZ, ("                'rajd': obj.icrs.ra.deg,\n                'decjd': obj.icrs.dec.deg,\n                'frame': 'icrs'", "                'rajd': obj.ra.deg,\n                'decjd': obj.dec.deg,\n                'frame': 'icrs'"))
bug('C20', SZ, ("        if isinstance(obj, np.floating):\n            return float(obj)", "        if isinstance(obj, np.floating):\n            return round(float(obj), 12)"))
bug('C20', SZ, ("                'values': self.default(obj.values),", "                'values': self.default(obj.values.astype(np.float32)),"))
bug('C20', SZ, ("    obj.version = version\n", "    obj.version = get_riptide_version()\n"))
bug('C20', PG, ("            'foldbins': self.foldbins,\n", ""), ("items['foldbins']", "items.get('foldbins')"))
bug('C17', CV, ("        'radius': Schema(strictly_positive,", "        Optional('radius'): Schema(strictly_positive,"))
bug('C17', CV, ("        Optional('clrad'): And(\n            Use(float)", "        Optional('clrad'): And(\n            Use(int)"))
bug('C17', CV, ("        'rmed_minpts': And(int, strictly_positive", "        'rmed_minpts': Or(And(int, strictly_positive), None"))
bug('C17', CV, ("    'plot_candidates': Schema(bool, error='plot_candidates must be a boolean'),\n})", "    'plot_candidates': Schema(bool, error='plot_candidates must be a boolean'),\n}, ignore_extra_keys=True)"))
bug('C17', CV, ("        'snr_distance_max': And(\n", "        'snr_dist_max': And(\n"))
bug('C14', CV, ("        if not period_max_a == period_min_b:", "        if not period_max_a >= period_min_b:"))
bug('C14', CV, ("    for a, b in zip(ranges[:-1], ranges[1:]):", "    for a, b in zip(ranges[::2], ranges[1::2]):"))
bug('C14', CV, ("    if cand_bins * tsamp_max > period_min:", "    if cand_bins * tsamp_max > period_max:"))
bug('C14', CV, ("    for rg in ranges:\n        validate_range(rg, tsamp_max)\n    validate", "    validate_range(min(ranges, key=lambda r: r['ffa_search']['period_min']), tsamp_max)\n    validate"))
bug('C28 C14 C17', CV, ("        raise InvalidPipelineConfig(str(ex)) from None\n    return validated", "        if 'Wrong key' not in str(ex):\n            raise InvalidPipelineConfig(str(ex)) from None\n        validated = conf\n    return validated"))
bug('C19', PCL, ("            'npeaks': len(self),", "            'npeaks': len(set(p.iw for p in self)),"))
bug('C19', PCL, ("'fundamental_rank': self.parent_fundamental.rank if self.is_harmonic else self.rank", "'fundamental_rank': self.parent_fundamental.rank if self.is_harmonic else 0"))
bug('C12', PCL, ("        return self.parent_fundamental is not None", "        return self.hfrac is not None and self.hfrac != 1"))
bug('C18', RSK, ("        rmed_minpts=args.rmed_minpts,\n", ""))
bug('C18', RSK, ("smin=args.smin, clrad=args.clrad)", "smin=args.smin, clrad=args.clrad / ts.length)"))
bug('C18', RSK, ('        "--bmax", type=int, default=260', '        "--bmax", type=float, default=260'))
bug('C18', RSK, ("r=args.clrad/ts.length", "r=args.clrad/pgram.periods.max()"))
bug('C31', RMD, ("scrunch_factor = int(max(1, width_samples / float(min_points)))", "scrunch_factor = int(max(1, round(width_samples / float(min_points))))"))
bug('C31', RMD, ("+ 0.5 * (scrunch_factor - 1)", "+ 0.5 * scrunch_factor"))
bug('C31', RMD, ("    return np.interp(np.arange(data.size), x_lores, rmed_lores)", "    return np.interp(np.arange(data.size), x_lores, rmed_lores, left=0.0)"))
bug('C26', FOL, ("    folded *= (m * factor) ** -0.5", "    folded *= (tsdown.nsamp / bins * factor) ** -0.5"))
bug('C26', FOL, ("    tsdown = ts.downsample(factor)\n    m = tsdown.nsamp // bins", "    tsdown = ts.downsample(factor)\n    m = int(ts.length / period)"))
bug('C26', FOL, ("        if int(m / vf) < subints:\n            vf = np.nextafter(vf, 0.0)\n", ""))
bug('C04', FOL, ("        if not subints >= 1:\n            raise ValueError(\"subints must be >= 1 or None\")\n", ""))
bug('C04', LF, ("    if p > data.size:\n", "    if p >= 2 * data.size:\n"))
bug('C25', LF, ("        f = (f0 - s / (m-1.0) * f0**2)", "        f = 1.0 / (p + s / (m-1.0))"))
bug('C30', FU, ("    wmax = int(max(1, ducy_max * nbins))\n    while w <= wmax:", "    wmax = int(max(1, ducy_max * nbins))\n    while w < wmax or not widths:"))
bug('C30', FU, ("        w = int(max(w + 1, wtsp * w))", "        w = int(max(w + 1, wtsp ** len(widths)))"))
bug('C25', PHP, ("const float stdnoise = sqrt(rows * downsampled_variance(size, f));", "const float stdnoise = sqrt(rows * f);"))
bug('C25', PHP, ("bins - s / (rows - 1.0)", "bins - s / double(rows)"))
bug('C03', PHP, ("        const size_t bstop = std::min({ bins_max, n, size_t(period_max_samples) });\n\n        /* FFA transform loop */\n        for (size_t bins = bstart; bins <= bstop; ++bins)\n            {\n            const size_t rows = n / bins;\n            const float", "        const size_t bstop = std::min(bins_max, n);\n\n        /* FFA transform loop */\n        for (size_t bins = bstart; bins <= bstop; ++bins)\n            {\n            const size_t rows = n / bins;\n            const float"))
bug('C03', PHP, ("            snr += rows_eval * num_widths;\n            periods += rows_eval;", "            snr += rows * num_widths;\n            periods += rows_eval;"))
bug('C02 C03', PHP, ("    const size_t bufsize = downsampled_size(size, ds_ini);", "    const size_t bufsize = downsampled_size(size, ds_ini * ds_geo);"))
bug('C04', PHP, ('    periodogram_check_arg(period_max > period_min, "period_max must be > period_min");', '    periodogram_check_arg(period_max >= period_min, "period_max must be > period_min");'))
bug('C24 C03', PHP, ("        const double tau = f * tsamp; // current sampling time\n        const double period_max_samples = period_max / tau;\n        const size_t n = downsampled_size(size, f); // current number of input samples\n\n        // Data too short to fold once, and getting shorter: maximum trial period reached\n        if (n < bins_min)\n            break;\n\n        // downsample()", "        const float tau = f * tsamp; // current sampling time\n        const double period_max_samples = period_max / tau;\n        const size_t n = downsampled_size(size, f); // current number of input samples\n\n        // Data too short to fold once, and getting shorter: maximum trial period reached\n        if (n < bins_min)\n            break;\n\n        // downsample()"))
bug('C22', PR, ("    val = line[SEP_COLUMN+1:].strip()", "    val = line.rpartition(SEP)[2].strip()"))
bug('C22', PR, ("    val = line[SEP_COLUMN+1:].strip()", "    val = line.rsplit(SEP, 1)[-1].strip()"))
same(PR, ("self.fname.rsplit('.', maxsplit=1)[0] + '.dat'", "self.fname.rpartition('.')[0] + '.dat'"))
same(PR, ("    a, b = s.split(',')\n    return int(a), int(b)", "    first, second = s.split(',')\n    return int(first), int(second)"))
same(PR, ("    return vtype(val)", "    value = vtype(val)\n    return value"))
