CASES = []


def bug(pids, f, *edits):
    CASES.append(('bug', pids.split(), [(f, a, b) for a, b in edits]))


def same(f, *edits):
    CASES.append(('same', [], [(f, a, b) for a, b in edits]))


C = 'clustering.py'
bug('C11', C, ('abs(diff) > r', 'abs(diff) >= r'))
bug('C11', C, ('abs(diff) > r', 'diff > r'))
bug('C11', C, ('[len(x)]', '[len(x) - 1]'))
bug('C11', C, ('ibreaks+1', 'ibreaks'))
bug('C11', C, ('return [indices]', 'return [x]'))
bug('C11', C, ('indices[start:end]', 'x[start:end]'))
bug('C11', C, ('    if not len(x):\n        return []', '    if len(x) < 2:\n        return []'))
same(C, ("""    clusters = [
        indices[start:end]
        for start, end in zip(ibounds[:-1], ibounds[1:])
    ]
    return clusters""", """    clusters = []
    for k in range(len(ibounds) - 1):
        clusters.append(indices[ibounds[k]:ibounds[k + 1]])
    return clusters"""))
same(C, ("""    ibounds = np.concatenate(([0], ibreaks+1, [len(x)]))
    
    clusters = [
        indices[start:end]
        for start, end in zip(ibounds[:-1], ibounds[1:])
    ]
    return clusters""", """    return np.split(indices, ibreaks + 1)"""))
same(C, ("if not len(ibreaks):", "if ibreaks.size == 0:"), ("np.where(abs(diff) > r)[0]", "np.flatnonzero(np.abs(diff) > r)"))
same(C, ("""        indices = x.argsort()
        diff = np.diff(x[indices])
    else:
        indices = np.arange(len(x))
        diff = np.diff(x)
""", """        indices = np.argsort(x)
    else:
        indices = np.arange(x.size)
    ordered = x[indices]
    diff = ordered[1:] - ordered[:-1]
"""))
same(C, ("""    if not already_sorted:
        indices = x.argsort()
        diff = np.diff(x[indices])
    else:
        indices = np.arange(len(x))
        diff = np.diff(x)
""", """    if already_sorted:
        indices = np.arange(len(x))
        diff = np.diff(x)
    else:
        indices = x.argsort()
        diff = np.diff(x[indices])
"""))

W = 'ffautils.py'
bug('C30', W, ('w <= wmax', 'w < wmax'))
bug('C30', W, ('w = 1\n', 'w = 2\n'))
bug('C30', W, ('max(w + 1, wtsp * w)', 'max(w + 1, wtsp + w)'))
bug('C30', W, ('max(w + 1, wtsp * w)', 'wtsp * w'))
bug('C30', W, ('int(max(1, ducy_max * nbins))', 'int(max(2, ducy_max * nbins))'))
bug('C30', W, ('int(max(1, ducy_max * nbins))', 'int(ducy_max * nbins)'))
bug('C30', W, ('int(max(1, ducy_max * nbins))', 'round(max(1, ducy_max * nbins))'))
bug('C30', W, ('ducy_max=0.20', 'ducy_max=0.25'))
same(W, ("""    widths = []
    w = 1
    wmax = int(max(1, ducy_max * nbins))
    while w <= wmax:
        widths.append(w)
        w = int(max(w + 1, wtsp * w))
    return np.asarray(widths)""", """    limit = max(1, ducy_max * nbins)
    trials, current = [1], 1
    while True:
        current = max(int(wtsp * current), current + 1)
        if current > limit:
            break
        trials.append(current)
    return np.array(trials)"""))
same(W, ("""    while w <= wmax:
        widths.append(w)
        w = int(max(w + 1, wtsp * w))
""", """    while not w > wmax:
        widths += [w]
        nxt = int(wtsp * w)
        if nxt <= w:
            nxt = w + 1
        w = nxt
"""))

T = 'time_series.py'
bug('C07', T, ('self._data -= rmed', 'self._data += rmed'))
bug('C06', T, ("            self.metadata['tobs'] = self.length\n", ""))
bug('C06', T, ("np.asarray((self.data - m) / norm, dtype=np.float32)", "(self.data - m) / norm"))
bug('C07', T, ("            self._tsamp *= factor\n", ""))
bug('C07', T, ("self._tsamp *= factor", "self._tsamp = factor * round(self._tsamp, 6)"))
bug('C07', T, ("return TimeSeries(self.data - rmed, self.tsamp, metadata=self.metadata)", "return TimeSeries(self.data - rmed, self.tsamp)"))
bug('C07', T, ("return TimeSeries(self.data - rmed, self.tsamp, metadata=self.metadata)", "self._data -= rmed\n            return self"))
bug('C06', T, ("        self._tsamp = float(tsamp)\n", "        self._tsamp = float(tsamp)\n        self._length = len(data) * tsamp\n"), ("return self.nsamp * self.tsamp", "return self._length"))
same(T, ("""        if inplace:
            self._data = downsample(self.data, factor)
            self._tsamp *= factor
            self.metadata['tobs'] = self.length
        else:
            return TimeSeries(downsample(self.data, factor), factor * self.tsamp, metadata=self.metadata)""",
"""        new = downsample(self._data, factor)
        dt = self._tsamp * factor
        if not inplace:
            return TimeSeries(new, dt, metadata=self.metadata)
        self._data, self._tsamp = new, dt
        self.metadata['tobs'] = new.size * dt"""))
same(T, ("""        m = self.data.mean(dtype=np.float64)
        v = self.data.var(dtype=np.float64)
        norm = v ** 0.5
        
        if inplace:
            self._data = np.asarray((self.data - m) / norm, dtype=np.float32)
        else:
            return TimeSeries((self.data - m) / norm, self.tsamp, metadata=self.metadata)
""", """        result = self._standardised()
        if inplace:
            self._data = result.astype(np.float32)
            return None
        return TimeSeries(result, self.tsamp, metadata=self.metadata)

    def _standardised(self):
        x = self.data
        return (x - x.mean(dtype=np.float64)) / np.sqrt(x.var(dtype=np.float64))
"""))
F = 'folding.py'
bug('C26', F, ("(m * factor) ** -0.5", "(m * bins) ** -0.5"))
bug('C26', F, ("elif subints == m:", "elif subints >= m - 1:"))
bug('C26', F, ("if subints == 1 or m == 1:", "if subints == 1:"))
bug('C26', F, ("tbin = period / bins", "tbin = period / (bins + 1)"))
bug('C26', F, ("nsamp_eff = m * bins", "nsamp_eff = (m - 1) * bins"))
same(F, ("""    if subints == 1 or m == 1:
        return folded.sum(axis=0)
    elif subints is None:
        return folded
    elif subints == m:
        return folded
    else:
        # vertical downsampling factor
        vf = m / subints
        # Rounding errors in the division can make the output one line short
        if int(m / vf) < subints:
            vf = np.nextafter(vf, 0.0)
        return downsample_vertical(folded, vf)""",
"""    if subints is None and m > 1:
        return folded
    if m == 1 or subints == 1:
        return np.sum(folded, axis=0)
    if m == subints:
        return folded
    ratio = m / subints
    if int(m / ratio) < subints:
        ratio = np.nextafter(ratio, 0.0)
    return downsample_vertical(folded, ratio)"""))
same(F, ("""    tsdown = ts.downsample(factor)
    m = tsdown.nsamp // bins
    nsamp_eff = m * bins
    
    folded = tsdown.data[:nsamp_eff].reshape(m, bins)
    folded *= (m * factor) ** -0.5
""", """    x = downsample(ts.data, factor)
    m = int(len(x) / bins)
    folded = x[:m * bins].reshape((m, bins)) / np.sqrt(m * factor)
"""))
R = 'running_medians.py'
bug('C31', R, ("0.5 * (scrunch_factor - 1)", "0.5 * scrunch_factor"))
bug('C31', R, ("* scrunch_factor + 0.5", "* (scrunch_factor - 1) + 0.5"))
bug('C31', R, ("mean(axis=1)", "sum(axis=1)"))
bug('C31', R, ("running_median(scrunched_data, min_points)", "running_median(scrunched_data, width_samples // scrunch_factor | 1)"))
bug('C31', R, ("int(max(1, width_samples / float(min_points)))", "int(max(1, round(width_samples / float(min_points))))"))
same(R, ("""    scrunch_factor = int(max(1, width_samples / float(min_points)))

    if (scrunch_factor == 1):""", """    scrunch_factor = max(width_samples // min_points, 1)
    if scrunch_factor < 2:"""))
same(R, ("""    x_lores = np.arange(scrunched_data.size) * scrunch_factor + 0.5 * (scrunch_factor - 1)
    return np.interp(np.arange(data.size), x_lores, rmed_lores)""",
"""    centre = (scrunch_factor - 1) / 2
    x_lores = centre + scrunch_factor * np.arange(len(scrunched_data))
    x_hires = np.arange(len(data))
    return np.interp(x_hires, x_lores, rmed_lores)"""))
P = 'peak_detection.py'
bug('C10', P, ("(s > dynthr) & (s > smin)", "(s > dynthr) | (s > smin)"))
bug('C10', P, ("(s > dynthr) & (s > smin)", "(s > dynthr)"))
bug('C10', P, ("clrad / T)", "clrad * T)"))
bug('C10', P, ("(s75 - s25) / 1.349", "(s75 - s25) / 1.439"))
bug('C10', P, ("if len(fc) >= minseg", "if len(fc) > minseg"))
bug('C10', P, ("smed + nstd * sstd", "nstd * sstd"))
bug('C10', P, ("s=s[:n]" if False else "    s = s[:n]", "    s = s[-n:]"))
bug('C10', P, ("s[ix].argmax()", "f[ix].argmax()"))
bug('C10', P, ("        ipeak = ix[ipeak]\n", ""))
bug('C10', P, ("nstd=nstd, minseg=minseg", "minseg=minseg"))
bug('C10', P, ("np.polyfit(np.log(fc), tc, polydeg)", "np.polyfit(np.log10(fc), tc, polydeg)"))
bug('C09', P, ("float(1.0/peak_freq)", "float(1.0/f[cur_peak_indices[0]])"))
bug('C09', P, ("pgram.foldbins[ipeak]", "pgram.foldbins[0]"))
bug('C09', P, ("snr=float(s[ipeak])", "snr=float(pgram.snrs[ipeak].max())"))
bug('C09', P, ("reverse=True", "reverse=False"))
bug('C09', P, ("key=lambda p: p.snr", "key=lambda p: p.freq"))
bug('C09', P, ("ip=int(ipeak)", "ip=len(peaks)"))
bug('C09', P, ("            peaks.append(peak)", "            if peak.snr > 1.1 * smin:\n                peaks.append(peak)"))
bug('C09', P, ("            peaks.append(peak)\n", "            peaks.append(peak)\n            break\n"))
same(P, ("    peaks = sorted(peaks, key=lambda p: p.snr, reverse=True)\n", "    peaks.sort(key=lambda p: -p.snr)\n"))
same(P, ("""            peak_freq = f[ipeak]
            peak_bins = pgram.foldbins[ipeak]
            peak_ducy = float(width) / peak_bins
""", """            peak_freq = 1.0 / pgram.periods[ipeak]
            peak_ducy = width / float(pgram.foldbins[ipeak])
"""), ("float(1.0/peak_freq)", "float(pgram.periods[ipeak])"))
same(P, ("""    clusters = cluster1d(fsel, clrad / T)
    for cl in clusters:
        ix = indices[cl]
        ipeak = s[ix].argmax()
        ipeak = ix[ipeak]
        peak_indices.append(ipeak)
    return peak_indices, polyco""", """    def brightest(cl):
        members = indices[cl]
        return members[np.argmax(s[members])]

    return [brightest(cl) for cl in cluster1d(fsel, clrad / T)], polyco"""), ("    peak_indices = []\n", ""))
same(P, ("""    fc = np.median(f.reshape(m, p), axis=1)
    s25, smed, s75 = np.percentile(s.reshape(m, p), (25, 50, 75), axis=-1)
""", """    fc = np.percentile(f.reshape((m, -1)), 50, axis=1)
    segs = s.reshape(m, p)
    smed = np.median(segs, axis=1)
    s25 = np.quantile(segs, 0.25, axis=1)
    s75 = np.percentile(segs, 75, axis=1)
"""))
same(P, ("    if len(fc) >= minseg:\n        poly = fit_threshold(fc, sc, polydeg=polydeg)\n        polyco = poly.coefficients\n    else: # constant threshold if not enough points for fit\n        polyco = [smin]\n        poly = np.poly1d(polyco)\n",
         "    if len(fc) < minseg:\n        polyco = [smin]\n    else:\n        polyco = np.polyfit(np.log(fc), sc, polydeg)\n"), ("poly(np.log(f))", "np.polyval(polyco, np.log(f))"),
     ("    mask = (s > dynthr) & (s > smin)\n", "    mask = s > np.maximum(dynthr, smin)\n"))
same(P, ("""        for ipeak in cur_peak_indices:
            peak_freq""", """        polycos[iw] = cur_polycos
        if not cur_peak_indices:
            continue
        for ipeak in cur_peak_indices:
            peak_freq"""), ("        polycos[iw] = cur_polycos\n    \n", "\n"))
S = 'search.py'
W = 'pipeline/worker_pool.py'
PL = 'pipeline/pipeline.py'
CA = 'candidate.py'
bug('C08', S, ("""    if deredden:
        tseries = tseries.deredden(rmed_width, minpts=rmed_minpts)
    if not already_normalised:
        tseries = tseries.normalise()
""", """    if not already_normalised:
        tseries = tseries.normalise()
    if deredden:
        tseries = tseries.deredden(rmed_width, minpts=rmed_minpts)
"""))
bug('C08', S, ("    if not already_normalised:\n        tseries", "    if deredden and not already_normalised:\n        tseries"))
bug('C08', S, ("minpts=rmed_minpts)", "minpts=101)"))
bug('C08', S, ("period_min, period_max, bins_min, bins_max\n", "period_min, period_max, bins_max, bins_min\n"))
bug('C08', S, ("wtsp=wtsp)", "wtsp=1.5)"))
bug('C08', S, ("generate_width_trials(bins_min,", "generate_width_trials(bins_max,"))
bug('C08', S, ("    return tseries, pgram", "    return orig, pgram"), ("    ### Prepare data", "    orig = tseries\n    ### Prepare data"))
bug('C08', W, ("                'deredden': False,\n", ""))
bug('C08', W, ("                'already_normalised': True\n", ""))
bug('C08', W, ("        ts = ts.normalise()\n", ""))
bug('C08', W, ("        kw_search = dict", "            ts = ts.normalise()\n            kw_search = dict".replace("            ts", "    ts", 1)), ("xx", "xx") ) if False else None
bug('C08', W, ("            self.deredden_params['rmed_width'], \n", "            self.range_confs[0]['ffa_search']['period_max'], \n"))
bug('C08', W, ("            allpeaks.extend(peaks)", "            allpeaks = peaks"))
bug('C08', PL, ("            ts = ts.normalise()\n", ""))
bug('C08', PL, ("                minpts=self.config['dereddening']['rmed_minpts'])", "                )"))
same(S, ("""    if deredden:
        tseries = tseries.deredden(rmed_width, minpts=rmed_minpts)
    if not already_normalised:
        tseries = tseries.normalise()
""", """    prepared = tseries.deredden(width=rmed_width, minpts=rmed_minpts) if deredden else tseries
    prepared = prepared if already_normalised else prepared.normalise()
    tseries = prepared
"""), ("""    periods, foldbins, snrs = libcpp.periodogram(
        tseries.data, tseries.tsamp, widths, 
        period_min, period_max, bins_min, bins_max
        )
    pgram = Periodogram(widths, periods, foldbins, snrs, metadata=tseries.metadata)
""", """    output = libcpp.periodogram(tseries.data, tseries.tsamp, widths, period_min, period_max, bins_min, bins_max)
    pgram = Periodogram(widths, *output, tseries.metadata)
"""))
same(W, ("""            kw_search = dict(conf['ffa_search'])
            kw_search.update({
                'deredden': False,
                'already_normalised': True
                })
            tsdr, pgram = ffa_search(ts, **kw_search)
            peaks, polycos = find_peaks(pgram, **conf['find_peaks'])
            allpeaks.extend(peaks)
            del tsdr, pgram, peaks, polycos # Free RAM ASAP
""", """            kw_search = {**conf['ffa_search'], 'deredden': False, 'already_normalised': True}
            __, pgram = ffa_search(ts, **kw_search)
            allpeaks += find_peaks(pgram, **conf['find_peaks'])[0]
"""))
same(W, ("""        ts = self.loader(fname)
""", """        ts = self._load(fname)
"""), ("    def process_fname(self, fname):\n", "    def _load(self, fname):\n        return self.loader(fname)\n\n    def process_fname(self, fname):\n"),
     ("        ts = ts.deredden(\n            self.deredden_params['rmed_width'], \n            minpts=self.deredden_params['rmed_minpts']\n            )\n        ts = ts.normalise()\n",
      "        params = self.deredden_params\n        ts = ts.deredden(params['rmed_width'], params['rmed_minpts']).normalise()\n"))
same(PL, ("        for dm, clusters in grouped_clusters.items():\n            fname = self.dmiter.get_filename(dm)\n", "        for dm in grouped_clusters:\n            clusters = grouped_clusters[dm]\n            fname = self.dmiter.get_filename(dm)\n"))
same(PL, ("        grouped_clusters = defaultdict(list)\n", "        grouped_clusters = {}\n"), ("            grouped_clusters[cl.centre.dm].append(cl)\n", "            grouped_clusters.setdefault(cl.centre.dm, []).append(cl)\n"))
same(PL, ("        grouped_clusters = defaultdict(list)\n", "        grouped_clusters = {}\n"), ("            grouped_clusters[cl.centre.dm].append(cl)\n", "            dm = cl.centre.dm\n            if dm not in grouped_clusters:\n                grouped_clusters[dm] = []\n            grouped_clusters[dm].append(cl)\n"))
same(PL, ("            for cl in clusters:\n                try:", "            for cl in clusters:\n                centre = cl.centre\n                try:"), ("rng = self.get_search_range(cl.centre.period)", "rng = self.get_search_range(centre.period)"),
     ("""                    cand = Candidate.from_pipeline_output(
                        ts, cl, rng['candidates']['bins'], subints=rng['candidates']['subints'])
                    self.candidates.append(cand)""", """                    kw = rng['candidates']
                    self.candidates.append(Candidate.from_pipeline_output(ts, cl, **kw))""")) if False else None
same(PL, ("            for cl in clusters:\n                try:\n                    rng = self.get_search_range(cl.centre.period)", "            for cl in clusters:\n                try:\n                    centre = cl.centre\n                    rng = self.get_search_range(centre.period)"),
     ("""                    cand = Candidate.from_pipeline_output(
                        ts, cl, rng['candidates']['bins'], subints=rng['candidates']['subints'])
                    self.candidates.append(cand)""", """                    fold_params = rng['candidates']
                    self.candidates.append(Candidate.from_pipeline_output(
                        ts, cl, bins=fold_params['bins'], subints=fold_params['subints']))"""))
bug('C32', PL, ("            if pmin <= period < pmax:", "            if pmin < period <= pmax:"))
bug('C32', PL, ("return dict(ranges[-1])", "return dict(ranges[0])"))
bug('C32', PL, ("return dict(ranges[-1])", "return dict(self.config['ranges'][-1])"))
bug('C32', PL, ("        if period >= pmax_global:", "        if period > pmax_global:"))
bug('C32', PL, ("self.get_search_range(cl.centre.period)", "self.get_search_range(clusters[0].centre.period)"))
bug('C32', PL, ("self.get_search_range(cl.centre.period)", "self.get_search_range(cl[0].period)"))
bug('C32', PL, ("grouped_clusters[cl.centre.dm].append(cl)", "grouped_clusters[cl[0].dm].append(cl)"))
bug('C32', CA, ("subints * P0 >= ts.length", "subints * P0 >= ts.length * bins"))
bug('C32', CA, ("        centre = peak_cluster.centre\n", "        centre = peak_cluster[0]\n"))
bug('C32', CA, ("ts.fold(centre.period, bins, subints=subints)", "ts.fold(centre.period, bins)"))
bug('C32', CA, ("peak_cluster.summary_dataframe(), subints_array", "peak_cluster[:1].summary_dataframe(), subints_array")) if False else None
same(CA, ("        if subints is not None and subints * P0 >= ts.length:\n", "        if subints is None:\n            pass\n        elif subints * P0 >= ts.length:\n"))
same(PL, ("""        for rng in ranges:
            pmin = rng['ffa_search']['period_min']
            pmax = rng['ffa_search']['period_max']
            if pmin <= period < pmax:
                return dict(rng)
""", """        def within(rng):
            kw = rng['ffa_search']
            return kw['period_min'] <= period and period < kw['period_max']

        for rng in ranges:
            if within(rng):
                return dict(rng)
"""))
same(PL, ("        pmin_global = min(rng['ffa_search']['period_min'] for rng in ranges)\n        pmax_global = max(rng['ffa_search']['period_max'] for rng in ranges) \n",
          "        pmin_global = ranges[0]['ffa_search']['period_min']\n        pmax_global = ranges[-1]['ffa_search']['period_max']\n"))
same(PL, ("""        for rng in ranges:
            pmin = rng['ffa_search']['period_min']
            pmax = rng['ffa_search']['period_max']
            if pmin <= period < pmax:
                return dict(rng)
""", """        inside = [rng for rng in ranges if rng['ffa_search']['period_min'] <= period < rng['ffa_search']['period_max']]
        if inside:
            return dict(inside[0])
"""))
H = 'pipeline/harmonic_testing.py'
bug('C29', H, ("dvals['snr_distance'] <= snr_distance_max", "dvals['snr_distance'] < snr_distance_max"))
bug('C29', H, ("min(width(F), width(H))", "max(width(F), width(H))"))
bug('C29', H, ("    if H == slow:", "    if H == fast:"))
bug('C29', H, ("phase_absdiff_turns / fast.ducy", "phase_absdiff_turns / slow.ducy"))
bug('C29', H, ("* tobs\n", "/ tobs\n"))
bug('C29', H, ("(fraction.numerator * fraction.denominator) ** 0.5", "fraction.numerator ** 0.5"))
bug('C29', H, ("denom_max=denom_max)", "denom_max=100)"))
bug('C29', H, ("""    # NOTE: in the end we want to return the fraction H.freq / F.freq
    # NOTE: fraction = 2 means that H is the second harmonic of F in the Fourier sense
    # (H has a frequency twice that of F)
    if H == slow:
        fraction = 1 / fraction
""", ""))
bug('C29', H, ("4.15e3", "4.15e-3"))
bug('C29', H, ("abs(F.dm - H.dm)", "(F.dm - H.dm)"))
bug('C29', H, ("        dvals['dm_distance'] <= dm_distance_max and \\\n", ""))
same(H, ("    slow, fast = sorted((F, H), key=lambda x: x.freq)\n", "    if F.freq <= H.freq:\n        slow, fast = F, H\n    else:\n        slow, fast = H, F\n"), ("    if H == slow:", "    if H is slow:"))
same(H, ("    slow, fast = sorted((F, H), key=lambda x: x.freq)\n", "    slow = min(F, H, key=lambda x: x.freq)\n    fast = H if slow is F else F\n"), ("    if H == slow:", "    if H is slow:"))
same(H, ("""    related = \\
        dvals['phase_distance'] <= phase_distance_max and \\
        dvals['dm_distance'] <= dm_distance_max and \\
        dvals['snr_distance'] <= snr_distance_max
""", """    limits = {
        'phase_distance': phase_distance_max,
        'dm_distance': dm_distance_max,
        'snr_distance': snr_distance_max,
    }
    related = all(dvals[key] <= limit for key, limit in limits.items())
"""))
same(H, ("    def width(X):\n        return X.ducy / X.freq\n", "    def width(X):\n        return X.ducy * (1.0 / X.freq)\n"), ("(fraction.numerator * fraction.denominator) ** 0.5", "math.sqrt(fraction.numerator * fraction.denominator)"),
     ("        raise ValueError\n    if not tobs > 0.0:\n        raise ValueError\n", "        raise ValueError('fmax')\n    if tobs <= 0.0:\n        raise ValueError('tobs')\n"))
bug('C12', PL, ("cl.rank = rank", "cl.rank = rank + 1"))
bug('C12', PL, ("itertools.combinations(clusters_decreasing_snr, 2)", "itertools.combinations(self.clusters, 2)"))
bug('C12', PL, ("            if F.is_harmonic or H.is_harmonic:", "            if H.is_harmonic:"))
bug('C12', PL, ("            if F.is_harmonic or H.is_harmonic:", "            if F.is_harmonic:"))
bug('C12', PL, ("htest(F.centre, H.centre,", "htest(H.centre, F.centre,"))
bug('C12', PL, ("                H.hfrac = fraction", "                H.hfrac = 1 / fraction"))
bug('C12', PL, ("                H.parent_fundamental = F\n                H.hfrac = fraction", "                F.parent_fundamental = H\n                F.hfrac = fraction"))
bug('C12', PL, ("            if related:", "            if related and F.centre.dm == H.centre.dm:"))
bug('C12', PL, ("            if related:", "            if fraction > 1:"))
bug('C12', PL, ("key=lambda c: c.centre.snr, reverse=True)\n\n        # Assign", "key=lambda c: len(c), reverse=True)\n\n        # Assign"))
bug('C12', PL, ("htest(F.centre, H.centre, tobs, fmin, fmax, **kwargs)", "htest(F.centre, H.centre, tobs, fmin, fmax)"))
bug('C12', PL, ("htest(F.centre, H.centre, tobs, fmin, fmax, **kwargs)", "htest(F[0], H[0], tobs, fmin, fmax, **kwargs)"))
bug('C12', 'pipeline/peak_cluster.py', ("return max(self, key", "return min(self, key"))
bug('C12', 'pipeline/peak_cluster.py', ("return self.parent_fundamental is not None", "return bool(self.rank)"))
same(PL, ("""        for F, H in itertools.combinations(clusters_decreasing_snr, 2):
            if F.is_harmonic or H.is_harmonic:
                continue

            related, fraction = htest(F.centre, H.centre, tobs, fmin, fmax, **kwargs)

            if related:
                H.parent_fundamental = F
                H.hfrac = fraction
""", """        nclusters = len(clusters_decreasing_snr)
        for i in range(nclusters):
            for j in range(i + 1, nclusters):
                F, H = clusters_decreasing_snr[i], clusters_decreasing_snr[j]
                if not (F.is_harmonic or H.is_harmonic):
                    related, fraction = htest(F.centre, H.centre, tobs, fmin, fmax, **kwargs)
                    if not related:
                        continue
                    H.hfrac = fraction
                    H.parent_fundamental = F
"""))
same(PL, ("""        for F, H in itertools.combinations(clusters_decreasing_snr, 2):
            if F.is_harmonic or H.is_harmonic:
                continue

            related, fraction = htest(F.centre, H.centre, tobs, fmin, fmax, **kwargs)

            if related:
                H.parent_fundamental = F
                H.hfrac = fraction
""", """        for i, F in enumerate(clusters_decreasing_snr):
            for H in clusters_decreasing_snr[i+1:]:
                self._flag_pair(F, H, tobs, fmin, fmax, kwargs)
"""), ("    @timing\n    def flag_harmonics", """    @staticmethod
    def _flag_pair(F, H, tobs, fmin, fmax, kwargs):
        if F.is_harmonic or H.is_harmonic:
            return
        related, fraction = htest(F.centre, H.centre, tobs, fmin, fmax, **kwargs)
        if related:
            H.parent_fundamental = F
            H.hfrac = fraction

    @timing
    def flag_harmonics"""))
same(PL, ("""        for F, H in itertools.combinations(clusters_decreasing_snr, 2):
            if F.is_harmonic or H.is_harmonic:
                continue

""", """        for F, H in itertools.combinations(clusters_decreasing_snr, 2):
            if F.is_harmonic:
                continue
            if H.is_harmonic:
                continue
"""), ("        for rank, cl in enumerate(clusters_decreasing_snr):\n            cl.rank = rank\n", "        for rank in range(len(clusters_decreasing_snr)):\n            clusters_decreasing_snr[rank].rank = rank\n"))
same(PL, ("""        for F, H in itertools.combinations(clusters_decreasing_snr, 2):
            if F.is_harmonic or H.is_harmonic:
                continue

            related,""", """        for i, F in enumerate(clusters_decreasing_snr):
            if F.is_harmonic:
                continue
            for H in clusters_decreasing_snr[i+1:]:
              if H.is_harmonic:
                continue

              related,"""), ("""            if related:
                H.parent_fundamental = F
                H.hfrac = fraction
""", """              if related:
                H.parent_fundamental = F
                H.hfrac = fraction
"""))
bug('C13', PL, ("c.centre.dm >= dm_min", "c.centre.dm > dm_min"))
bug('C13', PL, ("c.centre.snr >= snr_min, clusters_filtered", "c.centre.snr >= snr_min, self.clusters"))
bug('C13', PL, ("        if dm_min is not None:", "        if dm_min:"))
bug('C13', PL, ("lambda c: not c.is_harmonic, clusters", "lambda c: c.is_harmonic, clusters"))
bug('C13', PL, ("            clusters_filtered = sorted(clusters_filtered, key=lambda c: c.centre.snr, reverse=True)\n            clusters", "            clusters"))
bug('C13', PL, ("key=lambda c: c.centre.snr, reverse=True)\n            clusters", "key=lambda c: c.centre.snr)\n            clusters"))
bug('C13', PL, ("clusters_filtered[:nmax]", "clusters_filtered[:nmax - 1]"))
bug('C13', PL, ("        # Harmonic removal\n", "        nmax = params['max_number']\n        if nmax:\n            clusters_filtered = sorted(clusters_filtered, key=lambda c: c.centre.snr, reverse=True)[:nmax]\n        # Harmonic removal\n"))
bug('C13', PL, ("lambda c: c.centre.dm >= dm_min", "lambda c: any(p.dm >= dm_min for p in c)"))
bug('C13', PL, ("        self.clusters_filtered = clusters_filtered\n", "        self.clusters_filtered = self.clusters\n"))
same(PL, ("            clusters_filtered = list(filter(lambda c: c.centre.dm >= dm_min, clusters_filtered))", "            clusters_filtered = [c for c in clusters_filtered if not c.centre.dm < dm_min]"),
     ("        if nmax:\n", "        clusters_filtered = sorted(clusters_filtered, key=lambda c: c.centre.snr, reverse=True)\n        if nmax:\n"),
     ("            clusters_filtered = sorted(clusters_filtered, key=lambda c: c.centre.snr, reverse=True)\n            clusters", "            clusters"))
same(PL, ("        clusters_filtered = self.clusters\n", "        clusters_filtered = sorted(self.clusters, key=lambda c: c.centre.snr, reverse=True)\n"),
     ("            clusters_filtered = sorted(clusters_filtered, key=lambda c: c.centre.snr, reverse=True)\n            clusters", "            clusters"))
same(PL, ("        clusters_filtered = self.clusters\n", """        filters = []
        if params['dm_min'] is not None:
            filters.append(lambda c: c.centre.dm >= params['dm_min'])
        if params['snr_min'] is not None:
            filters.append(lambda c: c.centre.snr >= params['snr_min'])
        if params['remove_harmonics']:
            filters.append(lambda c: not c.is_harmonic)
        clusters_filtered = [c for c in self.clusters if all(f(c) for f in filters)]
"""), ("            clusters_filtered = list(filter(lambda c: c.centre.dm >= dm_min, clusters_filtered))\n", ""),
 ("            clusters_filtered = list(filter(lambda c: c.centre.snr >= snr_min, clusters_filtered))\n", ""),
 ("            clusters_filtered = list(filter(lambda c: not c.is_harmonic, clusters_filtered))\n", ""))
same(PL, ("""        # DM cut
        dm_min = params['dm_min']
        if dm_min is not None:
            log.warning(f"Applying DM threshold of {dm_min}")
            clusters_filtered = list(filter(lambda c: c.centre.dm >= dm_min, clusters_filtered))

        # S/N cut
        snr_min = params['snr_min']
        if snr_min is not None:
            log.warning(f"Applying S/N threshold of {snr_min}")
            clusters_filtered = list(filter(lambda c: c.centre.snr >= snr_min, clusters_filtered))
""", """        def threshold(clusters, attr):
            value = params[attr + '_min']
            if value is None:
                return clusters
            log.warning(f"Applying {attr} threshold of {value}")
            return [cl for cl in clusters if getattr(cl.centre, attr) >= value]

        clusters_filtered = threshold(clusters_filtered, 'dm')
        clusters_filtered = threshold(clusters_filtered, 'snr')
"""))
CVF = 'pipeline/config_validation.py'
DM = 'pipeline/dmiter.py'
WPF = 'pipeline/worker_pool.py'
bug('C14', CVF, ("    if bins_min * tsamp_max > period_min:", "    if bins_min * tsamp_max > period_max:"))
bug('C14', CVF, ("    cand_bins = rg['candidates']['bins']", "    cand_bins = rg['ffa_search']['bins_max']"))
bug('C14', CVF, ("zip(ranges[:-1], ranges[1:])", "zip(ranges[:-2], ranges[1:])"))
bug('C14', CVF, ("if not period_max_a == period_min_b", "if not period_max_a >= period_min_b"))
bug('C14', CVF, ("    for rg in ranges:\n        validate_range(rg, tsamp_max)\n", "    for rg in ranges[1:]:\n        validate_range(rg, tsamp_max)\n"))
bug('C14', DM, ("        return max([md['tsamp'] for md in self.metadata_list])", "        return max([md['tsamp'] for md in self.metadata_list[:1]])"))
bug('C14', PL, ("        validate_ranges(conf['ranges'], tsamp_max)\n", "        if len(files) > 1:\n            validate_ranges(conf['ranges'], tsamp_max)\n"))
bug('C14', PL, ("        self.flag_harmonics()\n\n", ""), ("        self.apply_candidate_filters()\n        self.build", "        self.apply_candidate_filters()\n        self.flag_harmonics()\n        self.build"))
bug('C14', PL, ("            peaks.extend(\n                self.worker_pool.process_fname_list(fnames)\n            )", "            peaks = self.worker_pool.process_fname_list(fnames)"))
bug('C14', PL, ("        self.peaks = sorted(peaks, key=lambda p: p.period)", "        self.peaks = sorted(peaks, key=lambda p: p.snr)"))
bug('C14', PL, ("self.config = validate_pipeline_config(config)", "validate_pipeline_config(config); self.config = config"))
bug('C14', PL, ("        clusters_decreasing_snr = sorted(self.clusters_filtered,", "        clusters_decreasing_snr = sorted(self.clusters,"))
bug('C14', PL, ("            for cl in clusters:\n                try:", "            for cl in clusters[:1]:\n                try:"))
bug('C14', PL, ("        try:\n", "        try:\n"), ("        validate_ranges(conf['ranges'], tsamp_max)\n", "        try:\n            validate_ranges(conf['ranges'], tsamp_max)\n        except Exception as err:\n            log.warning(err)\n"))
same(PL, ("        tsamp_max = self.dmiter.tsamp_max()\n", ""), ("        log.info(\n            f\"Max sampling time = {tsamp_max:.6e} s, checking pipeline config parameter values\")\n        validate_ranges(conf['ranges'], tsamp_max)\n", ""),
     ("        log.info(\"Running search\")\n", "        log.info(\"Running search\")\n        validate_ranges(self.config['ranges'], self.dmiter.tsamp_max())\n"))
same(CVF, ("    for rg in ranges:\n        validate_range(rg, tsamp_max)\n    validate_ranges_contiguity(ranges)\n", "    validate_ranges_contiguity(ranges)\n    for rg in ranges:\n        validate_range(rg, tsamp_max)\n"))
same(CVF, ("    for a, b in zip(ranges[:-1], ranges[1:]):\n", "    for i in range(len(ranges) - 1):\n        a, b = ranges[i], ranges[i + 1]\n"))
same(CVF, ("    if cand_bins * tsamp_max > period_min:", "    if cand_bins * tsamp_max > period_min or bins_min * tsamp_max > period_min:"))
same(PL, ("        self.prepare(files)\n        self.search()\n        self.cluster_peaks()\n", "        self._run(files)\n"), ("    def process(self, files, outdir):\n", "    def _run(self, files):\n        self.prepare(files)\n        self.search()\n        self.cluster_peaks()\n\n    def process(self, files, outdir):\n"))
same(PL, ("        peaks = []\n        for fnames in self.dmiter.iterate_filenames(chunksize=self.config['processes']):\n            peaks.extend(\n                self.worker_pool.process_fname_list(fnames)\n            )",
          "        peaks = [p for fnames in self.dmiter.iterate_filenames(chunksize=self.config['processes']) for p in self.worker_pool.process_fname_list(fnames)]"))
same(PL, ("        self.peaks = sorted(peaks, key=lambda p: p.period)", "        peaks.sort(key=lambda p: p.period)\n        self.peaks = peaks"))
same(PL, ("            for cl in clusters:\n                try:\n                    rng = self.get_search_range(cl.centre.period)\n                    cand = Candidate.from_pipeline_output(\n                        ts, cl, rng['candidates']['bins'], subints=rng['candidates']['subints'])\n                    self.candidates.append(cand)\n",
          "            for cl in clusters:\n                try:\n                    self._build(ts, cl)\n"),
     ("    @timing\n    def build_candidates", "    def _build(self, ts, cl):\n        rng = self.get_search_range(cl.centre.period)\n        cand = Candidate.from_pipeline_output(\n            ts, cl, rng['candidates']['bins'], subints=rng['candidates']['subints'])\n        self.candidates.append(cand)\n\n    @timing\n    def build_candidates"))
bug('C15', DM, ("(trial_dms >= dm_start) & (trial_dms", "(trial_dms > dm_start) & (trial_dms"))
bug('C15', DM, ("    trial_dms = np.sort(trial_dms)\n", ""))
bug('C15', DM, ("                return max(j - 1, i + 1)", "                return max(j - 1, i)"))
bug('C15', DM, ("                return max(j - 1, i + 1)", "                return j - 1"))
bug('C15', DM, ("self.dm_end = min(self.dm_end, galactic_dm_cap)", "self.dm_end = galactic_dm_cap"))
bug('C15', DM, ("self.dmsinb_max / abs(sin(radians(gb_deg)))", "self.dmsinb_max / abs(sin(radians(gl_deg)))"))
bug('C15', DM, ("float(dm_start) if dm_start is not None", "float(dm_start) if dm_start"))
bug('C15', DM, ("        if chunk: # yield any non-empty, incomplete last chunk\n            yield chunk\n", ""))
bug('C15', DM, ("        if chunk: # yield", "        if len(chunk) > 1: # yield"))
bug('C15', DM, ("            if len(chunk) == chunksize:\n", "            if len(chunk) >= chunksize - 1:\n"))
bug('C15', DM, ("list(self.metadata_dict.keys()),", "[md['dm'] for md in self.metadata_list],"))
bug('C15', DM, ("        return self.metadata_dict[dm]['fname']", "        return self.metadata_list[0]['fname']"))
bug('C15', DM, ("all([params[0] == p for p in params])", "any([params[0] == p for p in params])"))
bug('C15', PL, ("            conf['dmselect']['min'],\n            conf['dmselect']['max'],", "            conf['dmselect']['max'],\n            conf['dmselect']['min'],"))
bug('C15', PL, ("            peaks.extend(\n                self.worker_pool.process_fname_list(fnames)\n            )", "            peaks.extend(\n                self.worker_pool.process_fname_list(fnames[:self.config['processes'] - 1] or fnames)\n            )"))
bug('C15', DM, ("max(md['dm'] for md in self.metadata_list)", "max(self.metadata_list, key=lambda m: m['tobs'])['dm']"))
same(DM, ("""        chunk = []
        for dm in self.selected_dms:
            fname = self.metadata_dict[dm]['fname']
            chunk.append(fname)
            if len(chunk) == chunksize:
                yield chunk
                chunk = []
        if chunk: # yield any non-empty, incomplete last chunk
            yield chunk
""", """        fnames = [self.get_filename(dm) for dm in self.selected_dms]
        for start in range(0, len(fnames), chunksize):
            yield fnames[start:start + chunksize]
"""))
same(DM, ("""    mask = (trial_dms >= dm_start) & (trial_dms <= dm_end)
    trial_dms = trial_dms[mask]
    trial_dms = np.sort(trial_dms)
""", """    trial_dms = np.sort(trial_dms[np.logical_and(trial_dms >= dm_start, dm_end >= trial_dms)])
"""))
same(DM, ("""    while True:
        inext = largest_in_range(icur)

        if inext >= trial_dms.size:
            break
""", """    inext = largest_in_range(icur)
    while inext < trial_dms.size:
"""), ("        icur = inext\n    return", "        icur = inext\n        inext = largest_in_range(icur)\n    return"))
same(DM, ("""            for j in range(i, trial_dms.size):
            if dm_gap(i, j) > 0:
                return max(j - 1, i + 1)
        return max(j, i + 1)
""".replace('            for j', '        for j'), """        nxt = i + 1
        for j in range(i, trial_dms.size):
            if dm_gap(i, j) > 0:
                return max(nxt, j - 1)
        return max(nxt, j)
"""))
same(DM, ("            self.dm_end = min(self.dm_end, galactic_dm_cap)", "            if galactic_dm_cap < self.dm_end:\n                self.dm_end = galactic_dm_cap"))
same(DM, ("        self.dm_end = float(dm_end) if dm_end is not None \\\n            else max(md['dm'] for md in self.metadata_list)", "        if dm_end is None:\n            dm_end = max([md['dm'] for md in self.metadata_list])\n        self.dm_end = float(dm_end)"))
same(DM, ("        self.metadata_dict = {meta['dm']: meta for meta in self.metadata_list}\n", "        self.metadata_dict = {}\n        for meta in self.metadata_list:\n            self.metadata_dict[meta['dm']] = meta\n"))
same(DM, ("            if any([param is None for param in (fmin, fmax, nchans)]):\n                raise ValueError(\"You MUST specify: fmin, fmax, nchans\")\n            else:\n                (self", "            if None in (fmin, fmax, nchans):\n                raise ValueError(\"You MUST specify: fmin, fmax, nchans\")\n            else:\n                (self"))
bug('C16', WPF, ("results = pool.map(self.process_fname, fnames)", "results = pool.imap_unordered(self.process_fname, fnames)"))
bug('C16', WPF, ("results = pool.map(self.process_fname, fnames)", "results = pool.map(self.process_fname, fnames[:self.processes])"))
bug('C16', WPF, ("        pool.close()\n        pool.join()\n", "        pool.close()\n"))
bug('C16', WPF, ("return [det for dlist in results for det in dlist]", "return [det for dlist in results for det in dlist if det.snr > 0]"))
bug('C16', WPF, ("            kw_search = dict(conf['ffa_search'])\n", "            kw_search = conf['ffa_search']\n"))
bug('C16', WPF, ("            allpeaks.extend(peaks)\n", "            allpeaks = peaks\n"))
bug('C16', WPF, ("for conf in self.range_confs:", "for conf in self.range_confs[::-1]:"))
bug('C16', WPF, ("                'deredden': False,\n", ""))
bug('C16', WPF, ("'already_normalised': True", "'already_normalised': len(self.range_confs) > 1"))
bug('C16', WPF, ("            tsdr, pgram = ffa_search(ts, **kw_search)", "            ts, pgram = ffa_search(ts, **kw_search)"), ("del tsdr, pgram", "del pgram"))
bug('C16', WPF, ("        ts = self.loader(fname)\n", "        ts = self._load(fname)\n"), ("    def process_fname(self", "    _cache = {}\n\n    def _load(self, fname):\n        key = fname.rsplit('.', 1)[0]\n        if key not in self._cache:\n            self._cache[key] = self.loader(fname)\n        return self._cache[key]\n\n    def process_fname(self"))
bug('C16', P, ("def segment_stats(", "_STATS = {}\n\ndef segment_stats("), ("def fit_threshold(", "def _remember(k, v):\n    _STATS[k] = v\n    return v\n\n\ndef fit_threshold("), ("    peaks = []\n", "    _remember('t', 1)\n    peaks = []\n"))
bug('C16', WPF, ("        return allpeaks", "        import random\n        random.shuffle(allpeaks)\n        return allpeaks"))
bug('C16', WPF, ("        'sigproc': TimeSeries.from_sigproc,\n        'presto': TimeSeries.from_presto_inf", "        'sigproc': TimeSeries.from_presto_inf,\n        'presto': TimeSeries.from_sigproc"))
bug('C16', PL, ("            conf['ranges'],\n            processes", "            conf['ranges'][:conf['processes']],\n            processes"))
same(WPF, ("        results = pool.map(self.process_fname, fnames)\n", "        try:\n            results = pool.map(self.process_fname, fnames, chunksize=1)\n        finally:\n            pool.close()\n            pool.join()\n"), ("        pool.close()\n        pool.join()\n        return", "        return"))
same(WPF, ("        return [det for dlist in results for det in dlist]", "        peaks = []\n        for plist in results:\n            peaks += plist\n        return peaks"))
same(WPF, ("            kw_search = dict(conf['ffa_search'])\n            kw_search.update({\n                'deredden': False,\n                'already_normalised': True\n                })\n            tsdr, pgram = ffa_search(ts, **kw_search)\n            peaks, polycos = find_peaks(pgram, **conf['find_peaks'])\n            allpeaks.extend(peaks)\n            del tsdr, pgram, peaks, polycos # Free RAM ASAP\n",
           "            allpeaks.extend(self._search_range(ts, conf))\n"), ("    def process_fname(self", "    @staticmethod\n    def _search_range(ts, conf):\n        kw = {**conf['ffa_search'], 'already_normalised': True, 'deredden': False}\n        pgram = ffa_search(ts, **kw)[1]\n        return find_peaks(pgram, **conf['find_peaks'])[0]\n\n    def process_fname(self"))
same(WPF, ("        results = pool.map(self.process_fname, fnames)\n", "        import time\n        t0 = time.perf_counter()\n        results = pool.map(self.process_fname, fnames)\n        log.debug(f'search took {time.perf_counter() - t0:.2f} s')\n"))

# ---- C17
V = 'pipeline/config_validation.py'
bug('C17', V, ("'processes': And(int, strictly_positive", "Optional('processes'): And(int, strictly_positive"))
bug('C17', V, ("return x > 0", "return x >= 0"))
bug('C17', V, ("Optional('fpmin')", "Optional('minperiods')"))
bug('C17', V, ("lambda x: x > 1", "lambda x: x >= 1"))
bug('C17', V, ("'bins_max': And(int, strictly_positive", "'bins_max': And(Use(int), strictly_positive"))
bug('C17', V, ("""        'rmed_minpts': And(int, strictly_positive, error="rmed_minpts must be an int > 0")""", """        'rmed_minpts': Or(And(int, strictly_positive), None, error="rmed_minpts must be an int > 0")"""))
bug('C17', V, ("""    'plot_candidates': Schema(bool, error='plot_candidates must be a boolean'),
})""", """    'plot_candidates': Schema(bool, error='plot_candidates must be a boolean'),
}, ignore_extra_keys=True)"""))
bug('C17', V, ("raise InvalidPipelineConfig(str(ex)) from None", "raise"))
bug('C17', V, ("    return validated", "    return conf"))
bug('C17', V, ("VALID_FORMATS = ('presto', 'sigproc')", "VALID_FORMATS = ('presto', 'sigproc', 'npy')"))
bug('C17', V, ("Optional('clrad')", "Optional('cluster_radius')"))
bug('C17', V, ("'dm_distance_max': And(", "Optional('dm_distance_max'): And("))
bug('C17', V, ("'min': Or(Use(float), None", "'min': Or(float, None"))
bug('C17', V, ("        Optional('smin'): And(\n            Use(float), strictly_positive", "        Optional('smin'): And(\n            int, strictly_positive"))
bug('C17', 'peak_detection.py', ('nstd=6.0, minseg=10', 'nstd=6.0, min_segments=10'), ("minseg=minseg, polydeg", "minseg=min_segments, polydeg"))
bug('C17', 'pipeline/pipeline.py', ("self.config['plot_candidates']", "self.config['plots']"))
bug('C17', 'pipeline/pipeline.py', ("conf['dmselect']['dmsinb_max']", "conf['dmselect']['dmsinb_cap']"))
bug('C17', V, ("Schema(strictly_positive, error=\"rmed_width", "Schema(object, error=\"rmed_width"))
same(V, ("def strictly_positive(x):\n    return x > 0", "def strictly_positive(x):\n    if x <= 0:\n        return False\n    return True"))
same(V, ("SEARCH_RANGE_SCHEMA = Schema({", "def posint(msg):\n    return And(int, strictly_positive, error=msg)\n\n\nSEARCH_RANGE_SCHEMA = Schema({"),
     ("""And(int, strictly_positive, error="bins_min must be an int > 0")""", """posint("bins_min must be an int > 0")"""))
same(V, ("lambda x: 0 < x < 1", "lambda v: v > 0 and v < 1"))
same(V, ("""            lambda x: x in VALID_FORMATS, 
""", """            Or(*VALID_FORMATS),
"""))
same(V, ("""Or(
            And(int, strictly_positive), None,
            error="nchans must be a number > 0 or null/blank")""", """Or(
            None, And(int, lambda n: n > 0),
            error="nchans must be a number > 0 or null/blank")"""))
same(V, ("""        validated = PIPELINE_CONFIG_SCHEMA.validate(conf)
""", """        return PIPELINE_CONFIG_SCHEMA.validate(conf)
"""), ("    return validated\n", ""))
same(V, ("""        'bins': And(int, strictly_positive, error="candidates.bins must be an int > 0"),""", """        'bins': And(lambda n: isinstance(n, int), lambda n: n > 0, error="candidates.bins must be an int > 0"),"""))

# ---- C18
LF = 'libffa.py'
RS = 'apps/rseek.py'
PP = 'pipeline/pipeline.py'
bug('C18', LF, ("phase_radians = (np.arange(nsamp, dtype=float) / period - phi0)", "phase_radians = (np.arange(nsamp, dtype=float) / period)"))
bug('C18', LF, ("/ period - phi0", "/ period + phi0"))
bug('C18', LF, ("sin(pi*ducy/2.0)**2", "sin(pi*ducy/2.0)"))
bug('C18', LF, ("scale=stdnoise)", "scale=1.0)"))
bug('C18', LF, ("libcpp.snr2(cppinput, widths, stdnoise)", "libcpp.snr2(cppinput, widths, 1.0)"))
bug('C18', LF, ("m = data.size // p\n    return ffa2", "m = (data.size - 1) // p\n    return ffa2"))
bug('C18', LF, ("ffafreq(N, p, dt=dt)", "ffafreq(N, p)"))
bug('C18', 'search.py', ("generate_width_trials(bins_min, ducy_max=ducy_max, wtsp=wtsp)", "generate_width_trials(bins_min, ducy_max=ducy_max)"))
bug('C18', 'search.py', ("minpts=rmed_minpts)", "minpts=101)"))
bug('C18', 'search.py', ("fpmin=8", "fpmin=10"))
bug('C18', 'search.py', ("wtsp=1.5", "wtsp=1.6"))
bug('C18', RS, ("period_max=args.Pmax", "period_max=args.Pmin"))
bug('C18', RS, ("        rmed_minpts=args.rmed_minpts,\n", ""))
bug('C18', RS, ('"--bmin", type=int, default=240', '"--bmin", type=float, default=240'))
bug('C18', RS, ('"--clrad", type=float, default=0.2', '"--clrad", type=float, default=0.1'))
bug('C18', RS, ("smin=args.smin, clrad", "clrad"))
bug('C18', RS, ("r=args.clrad/ts.length", "r=args.clrad"))
bug('C18', RS, ("reverse=True", "reverse=False"))
bug('C18', RS, ("key=lambda p: p.snr)\n", "key=lambda p: p.width)\n"))
bug('C18', RS, ("        fpmin=1, # No dynamic cap on period_max\n", ""))
bug('C18', PP, ("pipeline.process(args.files, args.outdir)", "pipeline.process(args.files, os.getcwd())"))
bug('C18', PP, ("level=args.log_level", "level='DEBUG'"))
bug('C18', PP, ("    if args.logfile:\n        handlers", "    if not args.logfile:\n        handlers"))
bug('C18', PP, ("    if args.log_timings:", "    if not args.log_timings:"))
bug('C18', PP, ('nargs="+"', 'nargs="*"'))
bug('C18', PP, ("action='store_true'", "action='store_false'"))
bug('C18', PP, ("        return path\n\n    parser", "        return os.path.basename(path)\n\n    parser"))
bug('C18', PP, ("return cls(conf)\n", "return cls(json.loads(json.dumps(conf['ranges'])))\n"))
bug('C18', 'time_series.py', ("'signal_initial_phase': phi0", "'signal_initial_phase': ducy"))
bug('C18', 'time_series.py', ("period_samples = period / tsamp", "period_samples = round(period / tsamp)"))
same(RS, ("    loader = LOADERS[args.format]\n\n    # Search and find peaks\n    ts = loader(args.fname)", "    ts = LOADERS[args.format](args.fname)"))
same(RS, ("""    freqs = np.asarray([p.freq for p in peaks])
    cluster_indices = cluster1d(freqs, r=args.clrad/ts.length)
    peaks = [
        max([peaks[ii] for ii in indices], key=lambda p: p.snr)
        for indices in cluster_indices
    ]
    peaks = sorted(peaks, key=lambda p: p.snr, reverse=True)
""", """    freqs = np.array([p.freq for p in peaks])
    brightest = []
    for indices in cluster1d(freqs, args.clrad / ts.length):
        brightest.append(max((peaks[ii] for ii in indices), key=lambda q: q.snr))
    peaks = sorted(brightest, key=lambda p: -p.snr)
"""))
same(RS, ('''    parser.add_argument(
        "--Pmin", type=float, default=1.0, 
        help="Minimum trial period in seconds"
    )
    parser.add_argument(
        "--Pmax", type=float, default=10.0, 
        help="Maximum trial period in seconds"
    )
''', '''    for opt, val, what in (("--Pmin", 1.0, "Minimum"), ("--Pmax", 10.0, "Maximum")):
        parser.add_argument(opt, type=float, default=val, help=what + " trial period in seconds")
'''))
same(RS, ('"--Pmin", type=float, default=1.0,', '"--Pmin", dest="pmin", type=float, default=1.0,'), ("period_min=args.Pmin", "period_min=args.pmin"), ("[{args.Pmin},", "[{args.pmin},"))
same(PP, ("""    if args.log_timings:
        logging.getLogger('riptide.timing').setLevel('DEBUG')
    else:
        logging.getLogger('riptide.timing').setLevel('WARNING')
""", """    timing_level = 'DEBUG' if args.log_timings else 'WARNING'
    logging.getLogger('riptide.timing').setLevel(timing_level)
"""))
same(PP, ("    pipeline = Pipeline.from_yaml_config(args.config)\n    pipeline.process(args.files, args.outdir)", "    Pipeline.from_yaml_config(args.config).process(args.files, outdir=args.outdir)"))
same(PP, ("        parser = get_parser()\n        run_program(parser.parse_args())", "        args = get_parser().parse_args()\n        run_program(args)"))
same(PP, ("            conf = yaml.safe_load(fobj)", "            text = fobj.read()\n            conf = yaml.safe_load(text)"))
same(LF, ("""    if stdnoise > 0.0:
        noise = np.random.normal(size=nsamp, loc=0.0, scale=stdnoise)
    else:
        noise = 0.0

    tseries = signal + noise
    return tseries""", """    if stdnoise > 0.0:
        signal = signal + np.random.normal(size=nsamp, loc=0.0, scale=stdnoise)
    return signal"""))
same(LF, ("    shape = list(data.shape[:-1]) + [widths.size]\n    return snr.reshape(shape)", "    return snr.reshape(data.shape[:-1] + (len(widths),))"))

# ---- C19
PK = 'pipeline/peak_cluster.py'
bug('C19', PP, ("enumerate(self.candidates)]", "enumerate(self.candidates[1:])]"))
bug('C19', PP, ("candidate_{rank:04d}.json", "candidate_{rank:04d}_{cand.params['period']:.3f}.json"))
bug('C19', PP, ("f'candidate_{rank:04d}.json'", "f'candidate_{rank % 100:04d}.json'"))
bug('C19', PP, ("        if self.plot:\n", "        if not self.plot:\n"))
bug('C19', PP, ("key=lambda c: c.params['snr'], reverse=True)", "key=lambda c: c.params['snr'])"))
bug('C19', PP, ("key=lambda c: c.params['snr'], reverse=True)", "key=lambda c: c.params['period'])"))
bug('C19', PP, ("os.path.join(outdir, 'clusters.csv')", "os.path.join(os.getcwd(), 'clusters.csv')"))
bug('C19', PP, ("cand.params for cand in self.candidates", "cand.params for cand in self.candidates[:100]"))
bug('C19', PP, ("peak.summary_dict() for peak in self.peaks", "peak.summary_dict() for peak in self.peaks if peak.snr > 7"))
bug('C19', PP, ("        if self.clusters:\n            df_clusters", "        if self.candidates:\n            df_clusters"))
bug('C19', PP, ("clusters_to_dataframe(self.clusters)", "clusters_to_dataframe(self.clusters_filtered)"))
bug('C19', PP, ("""                except Exception as err:
                    log.error(err)
                    log.error(traceback.format_exc())
""", """                except ValueError as err:
                    log.error(err)
                    log.error(traceback.format_exc())
"""))
bug('C19', PP, ("                    log.error(traceback.format_exc())\n", "                    log.error(traceback.format_exc())\n                    break\n"))
bug('C19', PP, ("float_format='%.9f'", "float_format='%.4f'"))
bug('C19', PP, ("index=False, ", ""))
bug('C19', PK, ("'npeaks': len(self)", "'npeaks': len(self) - 1"))
bug('C19', PK, ("if self.is_harmonic else self.rank", "if self.is_harmonic else 0"))
bug('C19', PK, ("'npeaks', 'hfrac_num'", "'hfrac_num'"))
bug('C19', PK, ("for cl in clusters])", "for cl in clusters if not cl.is_harmonic])"))
bug('C19', 'peak_detection.py', ("attrs = ('period', 'freq', 'dm', 'width', 'ducy', 'snr')", "attrs = ('period', 'freq', 'dm', 'ducy', 'snr')"))
bug('C19', PP, ("f'candidate_{rank:04d}.png'", "f'candidate_{rank + 1:04d}.png'"))
bug('C19', PP, ("plot=self.config['plot_candidates'])", "plot=True)"))
bug('C19', PP, ("            for cl in clusters:\n                try:\n                    rng", "            try:\n                for cl in clusters:\n                    rng"),
    ("                    self.candidates.append(cand)\n\n                # NOTE: this should never happen ideally\n                # But just in case, avoid losing all results due to one candidate\n                # failing to be built\n                except Exception as err:\n                    log.error(err)\n                    log.error(traceback.format_exc())\n",
     "                    self.candidates.append(cand)\n\n            except Exception as err:\n                log.error(err)\n                log.error(traceback.format_exc())\n"))
same(PP, ("        arglist = [(rank, cand) for rank, cand in enumerate(self.candidates)]\n        pool.map(writer, arglist)", "        pool.map(writer, list(enumerate(self.candidates)))"))
same(PP, ("""        df_peaks = pandas.DataFrame.from_dict([
            peak.summary_dict() for peak in self.peaks
        ])
""", """        rows = [peak.summary_dict() for peak in self.peaks]
        df_peaks = pandas.DataFrame(rows)
"""))
same(PP, ("""        rank, cand = arg
        fname = os.path.join(self.outdir, f'candidate_{rank:04d}.json')
""", """        rank, cand = arg
        stem = 'candidate_{:04d}'.format(rank)
        fname = os.path.join(self.outdir, stem + '.json')
"""), ("            fname = os.path.join(self.outdir, f'candidate_{rank:04d}.png')\n", "            fname = os.path.join(self.outdir, stem + '.png')\n"))
same(PP, ("        self.outdir = os.path.realpath(outdir)", "        self.outdir = outdir"))
same(PP, ("""        if self.candidates:
            df_cands = pandas""", """        if len(self.candidates) > 0:
            df_cands = pandas"""))
same(PP, ("        self.candidates = sorted(self.candidates, key=lambda c: c.params['snr'], reverse=True)\n", "        self.candidates.sort(key=lambda c: c.params['snr'], reverse=True)\n"))
same(PP, ("""            for cl in clusters:
                try:
                    rng = self.get_search_range(cl.centre.period)
                    cand = Candidate.from_pipeline_output(
                        ts, cl, rng['candidates']['bins'], subints=rng['candidates']['subints'])
                    self.candidates.append(cand)

                # NOTE: this should never happen ideally
                # But just in case, avoid losing all results due to one candidate
                # failing to be built
                except Exception as err:
                    log.error(err)
                    log.error(traceback.format_exc())
""", """            for cl in clusters:
                cand = self.build_one(ts, cl)
                if cand is not None:
                    self.candidates.append(cand)
"""), ("    @timing\n    def save_products", """    def build_one(self, ts, cl):
        try:
            rng = self.get_search_range(cl.centre.period)
            return Candidate.from_pipeline_output(
                ts, cl, rng['candidates']['bins'], subints=rng['candidates']['subints'])
        except Exception as err:
            log.error(err)
            log.error(traceback.format_exc())
        return None

    @timing
    def save_products"""))
same(PK, ("            'rank': self.rank,\n            'hfrac_num': self.hfrac.numerator if self.is_harmonic else 0,\n            'hfrac_denom': self.hfrac.denominator if self.is_harmonic else 0,\n",
 "            'rank': self.rank,\n            'hfrac_num': 0 if self.parent_fundamental is None else self.hfrac.numerator,\n            'hfrac_denom': 0 if self.parent_fundamental is None else self.hfrac.denominator,\n"))

# ---- C20
SER = 'serialization.py'
bug('C20', SER, (".reshape(items['shape']).copy()", ".reshape(items['shape'])"))
bug('C20', SER, ("'dtype': str(obj.dtype)", "'dtype': obj.dtype.name"))
bug('C20', SER, ("'dtype': str(obj.dtype)", "'dtype': 'float32'"))
bug('C20', SER, ("np.ascontiguousarray(obj).data", "obj.T.copy().data"))
bug('C20', SER, ("'shape': obj.shape", "'shape': obj.shape[::-1]"))
bug('C20', SER, ("'shape': obj.shape", "'shape': obj.size"))
bug('C20', SER, ("np.frombuffer(data, items['dtype'])", "np.frombuffer(data, np.float64)"))
bug('C20', SER, ("'columns': list(obj.columns)", "'columns': sorted(obj.columns)"))
bug('C20', SER, (", columns=items['columns']", ""))
bug('C20', SER, ("'rajd': obj.icrs.ra.deg", "'rajd': obj.icrs.ra.hour"))
bug('C20', SER, ("'frame': 'icrs'", "'frame': 'fk5'"))
bug('C20', SER, ("SkyCoord(ra * uu.deg, dec * uu.deg, frame=frame)", "SkyCoord(dec * uu.deg, ra * uu.deg, frame=frame)"))
bug('C20', SER, ("    obj.version = version\n", ""))
bug('C20', SER, ("    obj.version = version\n", "    obj.version = get_riptide_version()\n"))
bug('C20', SER, ("items['__version__'] = obj.version", "items['__version__'] = get_riptide_version()"))
bug('C20', SER, ("    kwargs['cls'] = JSONEncoder\n", ""))
bug('C20', SER, ("json.loads(s, object_hook=object_hook)", "json.loads(s)"))
bug('C20', SER, ("        return from_json(f.read())", "        return json.load(f)"))
bug('C20', SER, ("f.write(to_json(obj, **kwargs))", "f.write(json.dumps(obj, **kwargs))"))
bug('C20', SER, ("return float(obj)", "return int(obj)"))
bug('C20', SER, ("        if isinstance(obj, np.integer):\n            return int(obj)\n", ""))
bug('C20', 'periodogram.py', ("            'foldbins': self.foldbins,\n", "            'foldbins': self.periods,\n"))
bug('C20', 'periodogram.py', ("items['foldbins'], items['snrs'], metadata=items['metadata']", "items['foldbins'], items['snrs']"))
bug('C20', 'periodogram.py', ("cls(items['widths'], items['periods']", "cls(items['periods'], items['widths']"))
bug('C20', T, ("return cls(items['data'], items['tsamp'], metadata=items['metadata'], copy=False)", "return cls(items['data'], items['tsamp'], copy=False)"))
bug('C20', T, ("            'tsamp': self.tsamp,\n", "            'tsamp': round(self.tsamp, 6),\n"))
bug('C20', CA, ("            'peaks': self.peaks,\n", "            'peaks': self.peaks.head(),\n"))
bug('C20', CA, ("items['tsmeta'], items['peaks']", "items['params'], items['peaks']"))
bug('C20', 'metadata.py', ("        return dict(self)", "        return {k: v for k, v in self.items() if v}"))
same(SER, ("np.ascontiguousarray(obj).data", "obj.tobytes()"))
same(SER, ("np.ascontiguousarray(obj).data", "np.ascontiguousarray(obj).tobytes()"))
same(SER, ("'dtype': str(obj.dtype)", "'dtype': obj.dtype.str"))
same(SER, ("np.frombuffer(data, items['dtype'])", "np.frombuffer(data, dtype=np.dtype(items['dtype']))"))
same(SER, ("return np.frombuffer(data, items['dtype']).reshape(items['shape']).copy()", "flat = np.frombuffer(data, items['dtype'])\n        return np.array(flat.reshape(tuple(items['shape'])))"))
same(SER, ("return np.frombuffer(data, items['dtype']).reshape(items['shape']).copy()", "return np.frombuffer(data, items['dtype']).copy().reshape(items['shape'])"))
same(SER, ("        b64_bytes = items['data'].encode()\n        data = base64.b64decode(b64_bytes)\n", "        data = base64.b64decode(items['data'])\n"))
same(SER, ("        b64_bytes = items['data'].encode()\n", "        b64_bytes = items['data'].encode('ascii')\n"))
same(SER, ("    with open(fname, 'r') as f:\n        return from_json(f.read())", "    with open(fname, 'r') as f:\n        text = f.read()\n    return from_json(text)"))
same(SER, ("    with open(fname, 'w') as f:\n        f.write(to_json(obj, **kwargs))", "    text = to_json(obj, **kwargs)\n    with open(fname, 'w') as f:\n        f.write(text)"))
same(SER, ("    if '__version__' in items:\n        version = items['__version__']\n    else:\n        version = get_riptide_version()\n    obj.version = version\n", "    obj.version = items['__version__'] if '__version__' in items else get_riptide_version()\n"))
same(SER, ("    if '__version__' in items:\n        version = items['__version__']\n    else:\n        version = get_riptide_version()\n    obj.version = version\n", "    obj.version = items.get('__version__', get_riptide_version())\n"))
same(SER, ("    cls = get_class(typename)\n    obj = cls.from_dict(items)\n", "    obj = get_class(typename).from_dict(items)\n"))
same(SER, ("""    if typename == 'numpy.ndarray':
        b64_bytes = items['data'].encode()
        data = base64.b64decode(b64_bytes)
        # NOTE: frombuffer() returns a read-only view, hence the copy
        return np.frombuffer(data, items['dtype']).reshape(items['shape']).copy()
""", """    if typename == 'numpy.ndarray':
        return decode_array(items)
"""), ("def object_hook", """def decode_array(items):
    data = base64.b64decode(items['data'].encode())
    return np.frombuffer(data, items['dtype']).reshape(items['shape']).copy()


def object_hook"""))
same(SER, ("""            b64_bytes = base64.b64encode(np.ascontiguousarray(obj).data)
            b64_str = b64_bytes.decode()
            return {
                '__type__': 'numpy.ndarray',
                'data': b64_str,
                'dtype': str(obj.dtype),
                'shape': obj.shape
            }
""", """            return encode_array(obj)
"""), ("class JSONEncoder", """def encode_array(arr):
    res = {'__type__': 'numpy.ndarray'}
    res['data'] = base64.b64encode(np.ascontiguousarray(arr).data).decode()
    res['dtype'] = str(arr.dtype)
    res['shape'] = arr.shape
    return res


class JSONEncoder"""))
same(SER, ("    kwargs = dict(kwargs)\n    kwargs['cls'] = JSONEncoder\n    kwargs.setdefault('indent', 4)\n    return json.dumps(obj, **kwargs)", "    kwargs.setdefault('indent', 4)\n    kwargs.update(cls=JSONEncoder)\n    return json.dumps(obj, **kwargs)"))
same(SER, ("    kwargs = dict(kwargs)\n    kwargs['cls'] = JSONEncoder\n    kwargs.setdefault('indent', 4)\n    return json.dumps(obj, **kwargs)", "    opts = {'indent': 4}\n    opts.update(kwargs)\n    opts['cls'] = JSONEncoder\n    return json.dumps(obj, **opts)"))
same(SER, ("    if not '__type__' in items:", "    if '__type__' not in items:"))
same(SER, ("            if hasattr(obj, 'version') and obj.version:\n                items['__version__'] = obj.version\n            else:\n                items['__version__'] = get_riptide_version()\n", "            version = getattr(obj, 'version', None)\n            items['__version__'] = version if version else get_riptide_version()\n"))
same('periodogram.py', ("return cls(items['widths'], items['periods'], items['foldbins'], items['snrs'], metadata=items['metadata'])", "return cls(widths=items['widths'], periods=items['periods'], foldbins=items['foldbins'], snrs=items['snrs'], metadata=items['metadata'])"))
same('periodogram.py', ("return cls(items['widths'], items['periods'], items['foldbins'], items['snrs'], metadata=items['metadata'])", "args = [items[k] for k in ('widths', 'periods', 'foldbins', 'snrs')]\n        return cls(*args, metadata=items['metadata'])"))
same(CA, ("return cls(items['params'], items['tsmeta'], items['peaks'], items['subints'])", "return cls(*(items[key] for key in ('params', 'tsmeta', 'peaks', 'subints')))"))
same(T, ("            'data': self.data,\n            'tsamp': self.tsamp,\n            'metadata': self.metadata\n", "            'data': self._data,\n            'tsamp': self._tsamp,\n            'metadata': self.metadata\n"))

# ---- C05
bug('C05 C07', T, ("            return TimeSeries(self.data - rmed, self.tsamp, metadata=self.metadata)", "            data = self.data\n            data -= rmed\n            return TimeSeries(data, self.tsamp, metadata=self.metadata)"))
bug('C05 C07', T, ("            return TimeSeries((self.data - m) / norm, self.tsamp, metadata=self.metadata)", "            np.subtract(self.data, m, out=self.data)\n            return TimeSeries(self.data / norm, self.tsamp, metadata=self.metadata)"))
bug('C05', 'running_medians.py', ("    N = (data.size // factor) * factor\n", "    data -= data.mean()\n    N = (data.size // factor) * factor\n"))
bug('C05', C, ("    if not already_sorted:\n", "    if not already_sorted:\n        x.sort()\n"))
bug('C05', 'pipeline/worker_pool.py', ("dict(conf['ffa_search'])", "conf['ffa_search']"))
bug('C05', 'serialization.py', ("    kwargs = dict(kwargs)\n    kwargs['cls'] = JSONEncoder\n", "    kwargs['cls'] = JSONEncoder\n    obj.pop('version', None) if isinstance(obj, dict) else None\n"))
bug('C05', 'reading/sigproc.py', ("keydb = sigproc_keydb.copy()", "keydb = sigproc_keydb"))
bug('C05', 'reading/sigproc.py', ("        keydb = sigproc_keydb.copy()\n        keydb.update(extra_keys)", "        extra_keys.update(sigproc_keydb)\n        keydb = extra_keys"))
bug('C05', 'metadata.py', ("        SCHEMA.validate(items)\n", "        items.setdefault('dm', None)\n        SCHEMA.validate(items)\n"))
bug('C05', 'metadata.py', ("        attrs = dict(inf)\n", "        attrs = inf\n"))
bug('C05', 'metadata.py', ("        attrs = dict(sh).copy()\n", "        attrs = sh\n"))
bug('C05', 'peak_detection.py', ("    mask = (s > dynthr) & (s > smin)\n", "    s[np.isnan(s)] = 0.0\n    mask = (s > dynthr) & (s > smin)\n"))
bug('C05', 'candidate.py', ("        return cls(centre.summary_dict(), ts.metadata,", "        ts.metadata['dm'] = centre.dm\n        return cls(centre.summary_dict(), ts.metadata,"))
bug('C05', 'candidate.py', ("        df = self.peaks.copy().groupby", "        self.peaks.sort_values('dm', inplace=True)\n        df = self.peaks.groupby"))
bug('C05', 'libffa.py', ("    if not data.ndim == 1:\n", "    data.setflags(write=False)\n    if not data.ndim == 1:\n"))
bug('C05', PP, ("        ranges = sorted(\n            self.config['ranges'], \n            key=lambda r: r['ffa_search']['period_max']\n            )\n", "        ranges = self.config['ranges']\n        ranges.sort(key=lambda r: r['ffa_search']['period_max'])\n"))
bug('C05', 'periodogram.py', ("        self.metadata = metadata if metadata is not None else Metadata({})", "        self.metadata = metadata if metadata is not None else Metadata({})\n        self.metadata['nwidths'] = len(widths)"))
bug('C05', 'folding.py', ("    factor = tbin / ts.tsamp\n    tsdown = ts.downsample(factor)\n", "    factor = tbin / ts.tsamp\n    tsdown = ts.downsample(factor) if factor > 2 else ts\n"))
same(T, ("            return TimeSeries(self.data - rmed, self.tsamp, metadata=self.metadata)", "            data = self.data.copy()\n            data -= rmed\n            return TimeSeries(data, self.tsamp, metadata=self.metadata)"))
same(T, ("            return TimeSeries((self.data - m) / norm, self.tsamp, metadata=self.metadata)", "            out = self.data - m\n            out /= norm\n            return TimeSeries(out, self.tsamp, metadata=self.metadata)"))
same('periodogram.py', ("        return 1.0 / self.periods", "        if not hasattr(self, '_freqs'):\n            self._freqs = 1.0 / self.periods\n        return self._freqs"))
same('metadata.py', ("        attrs = dict(inf)\n", "        attrs = {}\n        attrs.update(inf)\n"))
same('pipeline/worker_pool.py', ("            kw_search = dict(conf['ffa_search'])\n            kw_search.update({\n                'deredden': False,\n                'already_normalised': True\n                })\n", "            kw_search = {**conf['ffa_search'], 'deredden': False, 'already_normalised': True}\n"))
same('running_medians.py', ("    return data[:N].reshape(-1, factor).mean(axis=1)", "    out = data[:N].reshape(-1, factor).sum(axis=1)\n    out = out / factor\n    return out"))

# ---- C21
SG = 'reading/sigproc.py'
MT = 'metadata.py'
bug('C21', SG, ('    "refdm": float,', '    "refdm": int,'))
bug('C21', SG, ('    "signed": bool', '    "signed": int'))
bug('C21', SG, ('    "ibeam": int,\n', ''))
bug('C21', SG, ("        val, = struct.unpack('d', fobj.read(8))", "        val, = struct.unpack('f', fobj.read(4))"))
bug('C21', SG, ("    if key == HEADER_END:\n        return key, None\n\n", "    if key.startswith('HEADER'):\n        return key, None\n\n"))
bug('C21', SG, ("        keydb = sigproc_keydb.copy()\n", ""))
bug('C21', SG, ("        keydb = sigproc_keydb.copy()\n        keydb.update(extra_keys)", "        keydb = dict(extra_keys)\n        keydb.update(sigproc_keydb)"))
bug('C21', SG, ("    atype = keydb.get(key, None)", "    atype = keydb.get(key, float)"))
bug('C21', SG, ("    sign = np.sign(f)\n", "    sign = np.sign(f // 10000.)\n"))
bug('C21', SG, ("    return sign * (hh + mm / 60.0 + ss / 3600.0)", "    return sign * hh + mm / 60.0 + ss / 3600.0"))
bug('C21', SG, ("return self['nchans'] * self['nbits'] // 8", "return self['nbits'] // 8 if self['nbits'] > 8 else 4"))
bug('C21', SG, ("(os.path.getsize(self.fname) - self.bytesize) // self.bytes_per_sample", "os.path.getsize(self.fname) // self.bytes_per_sample"))
bug('C21', SG, ("        attrs[key] = val\n", "        attrs.setdefault(key, val)\n"))
bug('C21', MT, ("if sh['nchans'] > 1:", "if sh['nchans'] > 2:"))
bug('C21', MT, ("if not nbits in {8, 32}:", "if nbits not in {8, 16, 32}:"))
bug('C21', MT, ("if nbits == 8 and 'signed' not in sh:", "if nbits == 8 and not sh.get('signed', True):"))
bug('C21', MT, ("attrs['dm'] = attrs.get('refdm', None)", "attrs['dm'] = attrs.get('refdm', 0.0)"))
bug('C21', MT, ("attrs['tobs'] = sh.tobs", "attrs['tobs'] = attrs['nsamples'] * attrs['tsamp']"))
bug('C21', T, ("dtype = np.int8 if metadata['signed'] else np.uint8", "dtype = np.uint8"))
bug('C21', T, ("dtype = np.int8 if metadata['signed'] else np.uint8", "dtype = np.uint8 if metadata['signed'] else np.int8"))
bug('C21', T, ("            fobj.seek(sig.bytesize)\n", ""))
bug('C21', T, ("fobj.seek(sig.bytesize)", "fobj.seek(sig.bytesize + 4)"))
bug('C21', T, ("sig = SigprocHeader(fname, extra_keys=extra_keys)", "sig = SigprocHeader(fname)"))
bug('C21', T, ("return cls(data, tsamp=sig['tsamp'], metadata=metadata)", "return cls(data[:metadata.get('nsamples', data.size)], tsamp=sig['tsamp'], metadata=metadata)"))
same(SG, ("    size, = struct.unpack('i', fobj.read(4))", "    size = struct.unpack('i', fobj.read(4))[0]"))
same(SG, ("    atype = keydb.get(key, None)\n    if atype is None:", "    if key not in keydb or keydb[key] is None:"), ("    if atype == str:", "    atype = keydb[key]\n    if atype == str:"))
same(SG, ("    hh, x = divmod(x, 10000.)\n    mm, ss = divmod(x, 100.)", "    hh = x // 10000.\n    x = x % 10000.\n    mm = x // 100.\n    ss = x % 100."))
same(SG, ("        keydb = sigproc_keydb.copy()\n        keydb.update(extra_keys)", "        keydb = dict(sigproc_keydb, **extra_keys)"))
same(SG, ("        keydb = sigproc_keydb.copy()\n        keydb.update(extra_keys)", "        keydb = {**sigproc_keydb, **extra_keys}"))
same(SG, ("    keydb = sigproc_keydb\n\n    # Add any extra keys to header key database\n    if extra_keys:\n        keydb = sigproc_keydb.copy()\n        keydb.update(extra_keys)", "    keydb = dict(sigproc_keydb)\n    keydb.update(extra_keys)"))
same(SG, ("    while True:\n        key, val = read_attribute(fobj, keydb)\n        if key == HEADER_END:\n            break\n        attrs[key] = val\n", "    key, val = read_attribute(fobj, keydb)\n    while key != HEADER_END:\n        attrs[key] = val\n        key, val = read_attribute(fobj, keydb)\n"))
same(SG, ("    assert flag == HEADER_START, errmsg\n", "    if flag != HEADER_START:\n        raise AssertionError(errmsg)\n"))
same(SG, ("    if atype == str:\n        val = read_str(fobj)\n    elif", "    if atype is str:\n        val = read_str(fobj)\n    elif"))
same(MT, ("if not nbits in {8, 32}:", "if nbits != 8 and nbits != 32:"))
same(MT, ("attrs = dict(sh).copy()", "attrs = dict(sh)"))
same(MT, ("if type(sh) == str:", "if isinstance(sh, str):"))
same(MT, ("attrs['dm'] = attrs.get('refdm', None)", "attrs['dm'] = attrs.get('refdm')"))
same(T, ("        with open(fname, 'rb') as fobj:\n            fobj.seek(sig.bytesize)\n            if metadata['nbits'] == 8:\n                dtype = np.int8 if metadata['signed'] else np.uint8\n                # Don't forget to cast to float32 after reading !\n                data = np.fromfile(fobj, dtype=dtype).astype(np.float32)\n            else: # assume float32\n                data = np.fromfile(fobj, dtype=np.float32)",
"        if metadata['nbits'] == 8:\n            dtype = np.int8 if metadata['signed'] else np.uint8\n        else:\n            dtype = np.float32\n        data = np.fromfile(fname, dtype=dtype, offset=sig.bytesize).astype(np.float32)"))
same(T, ("            if metadata['nbits'] == 8:\n                dtype = np.int8 if metadata['signed'] else np.uint8\n", "            if sig['nbits'] == 8:\n                if sig['signed']:\n                    dtype = np.int8\n                else:\n                    dtype = np.uint8\n"))
same(T, ("            fobj.seek(sig.bytesize)\n", "            start = sig.bytesize\n            fobj.seek(start, 0)\n"))

# ---- C22
PR = 'reading/presto.py'
bug('C22', PR, ("SEP_COLUMN = 40", "SEP_COLUMN = 41"))
bug('C22', PR, ("    val = line[SEP_COLUMN+1:].strip()", "    val = line.split('=')[1].strip()"))
bug('C22', PR, ("    return int(s) != 0", "    return bool(s)"))
bug('C22', PR, ("    return int(s) != 0", "    return int(s) > 1"))
bug('C22', PR, ("    return int(a), int(b)", "    return int(b), int(a)"))
bug('C22', PR, ("'raj': p(4, str),\n        'decj': p(5, str),", "'raj': p(5, str),\n        'decj': p(4, str),"))
bug('C22', PR, ("'mjd': p(7, float)", "'mjd': p(7, int)"))
bug('C22', PR, ("    num_onoff = len(items['onoff_pairs'])\n", "    num_onoff = min(len(items['onoff_pairs']), 100)\n"))
bug('C22', PR, ("        items['bandwidth'] = p(4, float)\n        items['nchan'] = p(5, int)", "        items['bandwidth'] = p(4, float)\n        items['nchan'] = p(5, float)"))
bug('C22', PR, ("        items['energy_bandpass_kev'] = p(3, float)\n        items['analyst'] = p(4, str)", "        items['energy_bandpass_kev'] = p(2, float)\n        items['analyst'] = p(4, str)"))
bug('C22', PR, ("    elif em_band in ('X-ray', 'Gamma'):", "    elif em_band in ('X-ray', 'Gamma', 'Optical'):"))
bug('C22', PR, ("        raise ValueError(f\"EM Band {em_band!r} not supported\")", "        items['dm'] = 0.0"))
bug('C22', PR, ("    if telescope == FAKE_TELESCOPE:", "    if telescope.startswith('Fake'):"))
bug('C22', PR, ("dtype=numpy.float32)", "dtype=numpy.float64)"))
bug('C22', PR, ("rsplit('.', maxsplit=1)[0] + '.dat'", "split('.', maxsplit=1)[0] + '.dat'"))
bug('C22', PR, ("unit=(uu.hour, uu.degree))", "unit=(uu.degree, uu.degree))"))
bug('C22', PR, ("        self._fname = os.path.realpath(fname)", "        self._fname = fname"))
bug('C22', T, ("        if em_band in ('X-ray', 'Gamma'):", "        if em_band == 'X-ray':"))
bug('C22', T, ("        if em_band in ('X-ray', 'Gamma'):", "        if em_band in ('X-ray', 'Gamma') and ts.length < 1000:"))
bug('C22', T, ("ts = cls(inf.load_data(), tsamp=inf['tsamp'], metadata=metadata)", "ts = cls(inf.load_data()[:inf['nsamp']], tsamp=inf['tsamp'], metadata=metadata)"))
bug('C22', MT, ("attrs['tobs'] = attrs['tsamp'] * attrs['nsamp']", "attrs['tobs'] = attrs['tsamp'] * (attrs['nsamp'] - 1)"))
bug('C22', PR, ("    lines = lines[num_onoff:]", "    lines = lines[num_onoff:] if items['breaks'] else lines[1:]"))
bug('C22', PR, ("    if items['breaks']:\n        for line in lines:", "    if items['breaks']:\n        for line in lines[:10]:"))
same(PR, ("    val = line[SEP_COLUMN+1:].strip()\n    return vtype(val)", "    text = line[SEP_COLUMN + 1:]\n    return vtype(text.strip())"))
same(PR, ("    if not (len(line) > SEP_COLUMN and line[SEP_COLUMN] == SEP):", "    if len(line) <= SEP_COLUMN or line[SEP_COLUMN] != SEP:"))
same(PR, ("    return int(s) != 0", "    return bool(int(s))"))
same(PR, ("    elif em_band in ('X-ray', 'Gamma'):", "    elif em_band == 'X-ray' or em_band == 'Gamma':"))
same(PR, ("            try:\n                pair = parse_inf_value(line, parse_int_pair)\n                items['onoff_pairs'].append(pair)\n            except:\n                break", "            try:\n                pair = parse_inf_value(line, parse_int_pair)\n            except ValueError:\n                break\n            items['onoff_pairs'].append(pair)"))
same(PR, ("        items['fov_arcsec'] = p(1, float)\n        items['dm'] = p(2, float)\n        items['fbot'] = p(3, float)\n", "        items.update({'fov_arcsec': p(1, float), 'dm': p(2, float), 'fbot': p(3, float)})\n"))
same(PR, ("    num_onoff = len(items['onoff_pairs'])\n\n    lines = lines[num_onoff:]\n", "    lines = lines[len(items['onoff_pairs']):]\n"))
same(PR, ("        return self.fname.rsplit('.', maxsplit=1)[0] + '.dat'", "        base, _ = os.path.splitext(self.fname)\n        return base + '.dat'"))
same(PR, ("    # Parse on/off pairs, if any\n    if items['breaks']:\n        for line in lines:\n            try:\n                pair = parse_inf_value(line, parse_int_pair)\n                items['onoff_pairs'].append(pair)\n            except:\n                break\n", "    items['onoff_pairs'] = parse_pairs(lines) if items['breaks'] else []\n"), ("def inf2dict(text):", "def parse_pairs(lines):\n    pairs = []\n    for line in lines:\n        try:\n            pairs.append(parse_inf_value(line, parse_int_pair))\n        except:\n            break\n    return pairs\n\n\ndef inf2dict(text):"))
same(PR, ("    def p(n, vtype):\n        return parse_inf_value(lines[n], vtype)\n", "    pos = 0\n    def p(n, vtype):\n        return parse_inf_value(lines[pos + n], vtype)\n"), ("    lines = lines[12:]\n", "    pos = 12\n"), ("        for line in lines:\n", "        for line in lines[pos:]:\n"), ("    lines = lines[num_onoff:]\n", "    pos += num_onoff\n"))
same(T, ("        em_band = ts.metadata['em_band']\n        if em_band", "        em_band = inf['em_band']\n        if em_band"))
same(MT, ("attrs['fname'] = os.path.realpath(inf.fname)\n        attrs['tobs'] = attrs['tsamp'] * attrs['nsamp']", "attrs.update(fname=os.path.realpath(inf.fname), tobs=inf['nsamp'] * inf['tsamp'])"))
same(MT, ("        if type(inf) == str:\n            inf = PrestoInf(inf)\n", "        inf = PrestoInf(inf) if isinstance(inf, str) else inf\n"))

# ---- C23
bug('C23', MT, ("        SCHEMA.validate(items)\n", ""))
bug('C23', MT, ("        SCHEMA.validate(items)\n", "        if len(items) > 1:\n            SCHEMA.validate(items)\n"))
bug('C23', MT, ("        SCHEMA.validate(items)\n", "        try:\n            SCHEMA.validate(items)\n        except Exception:\n            pass\n"))
bug('C23', MT, ("        SCHEMA.validate(items)\n", "        SCHEMA.is_valid(items)\n"))
bug('C23', MT, ("    Optional('dm'): Or(And(float, lambda x: x >= 0), None)", "    Optional('dm'): Or(float, None)"))
bug('C23', MT, ("    Optional('dm'): Or(And(float, lambda x: x >= 0), None)", "    Optional('dm'): Or(And(float, lambda x: x > 0), None)"))
bug('C23', MT, ("    Optional('tobs'): Or(And(float, lambda x: x > 0), None)", "    Optional('tobs'): Or(And(float, lambda x: x >= 0), None)"))
bug('C23', MT, ("    Optional('mjd'): Or(And(float, lambda x: x >= 0), None)", "    Optional('mjd'): And(float, lambda x: x >= 0)"))
bug('C23', MT, ("    Optional('fname'): Or(str, None)", "    Optional('fname'): object"))
bug('C23', MT, ("    Optional('skycoord') : Or(SkyCoord, None),\n", ""))
bug('C23', MT, ("                self.setdefault(k.schema, None)", "                self[k.schema] = self.get(k.schema) or None"))
bug('C23', MT, ("                self.setdefault(k.schema, None)", "                self[k.schema] = None"))
bug('C23', MT, ("            if isinstance(k.schema, str):\n", "            if isinstance(k.schema, str) and len(items):\n"))
bug('C23', MT, ("        return dict(self)\n", "        return {k: v for k, v in self.items() if v is not None}\n"))
bug('C23', MT, ("        attrs['mjd'] = attrs.get('tstart', None)\n", ""))
bug('C23', MT, ("        attrs['source_name'] = attrs.get('source_name', None)\n", "        attrs['source_name'] = attrs.get('rawdatafile', None)\n"))
bug('C23', MT, ("        attrs['skycoord'] = inf.skycoord\n", "        attrs['skycoord'] = None\n"))
bug('C23', MT, ("        attrs['fname'] = os.path.realpath(inf.fname)\n", "        attrs['fname'] = os.path.basename(inf.fname)\n"))
bug('C23', MT, ("        attrs['tobs'] = attrs['tsamp'] * attrs['nsamp']\n        return cls(attrs)", "        attrs['tobs'] = attrs['tsamp'] * attrs['nsamp']\n        return attrs"))
bug('C23', MT, ("    @classmethod\n    def from_dict(cls, items):\n        return cls(items)", "    @classmethod\n    def from_dict(cls, items):\n        return cls({k: v for k, v in items.items() if v})"))
bug('C23', T, ("self.metadata = Metadata(metadata) if metadata is not None else Metadata({})", "self.metadata = Metadata(metadata) if metadata is not None else {}"))
same(MT, ("    Optional('dm'): Or(And(float, lambda x: x >= 0), None)", "    Optional('dm'): Or(None, And(float, lambda v: not v < 0))"))
same(MT, ("SCHEMA_ITEMS = {\n", "nonneg = And(float, lambda x: x >= 0)\n\nSCHEMA_ITEMS = {\n"), ("    Optional('dm'): Or(And(float, lambda x: x >= 0), None)", "    Optional('dm'): Or(nonneg, None)"))
same(MT, ("        for k in SCHEMA_ITEMS:\n            if isinstance(k.schema, str):\n                self.setdefault(k.schema, None)", "        for k in ('source_name', 'skycoord', 'dm', 'mjd', 'tobs', 'fname'):\n            if k not in self:\n                self[k] = None"))
same(MT, ("        SCHEMA.validate(items)\n        super(Metadata, self).__init__(items)\n", "        super().__init__(items)\n        SCHEMA.validate(items)\n"))
same(MT, ("    def __init__(self, items={}):\n", "    def __init__(self, items=None):\n        items = {} if items is None else items\n"))
same(MT, ("        attrs = dict(sh).copy()\n        attrs['dm'] = attrs.get('refdm', None)\n", "        attrs = dict(sh, dm=sh.get('refdm', None))\n"))
same(MT, ("            if isinstance(k.schema, str):\n                self.setdefault(k.schema, None)", "            name = k.schema\n            if not isinstance(name, str):\n                continue\n            self.setdefault(name, None)"))

# ---- C27
_RESET = "        self.peaks = []\n        self.clusters = []\n        self.clusters_filtered = []\n        self.candidates = []\n\n        self.prepare(files)\n"
bug('C27', PP, (_RESET, _RESET.replace("        self.clusters = []\n", "")))
bug('C27', PP, (_RESET, _RESET.replace("        self.candidates = []\n", "")))
bug('C27', PP, (_RESET, "        self.prepare(files)\n"))
bug('C27', PP, (_RESET, _RESET.replace("        self.candidates = []\n", "        if not files:\n            self.candidates = []\n")))
bug('C27', PP, (_RESET, "        if not self.peaks:\n            self.clusters = []\n            self.candidates = []\n        self.clusters_filtered = []\n        self.prepare(files)\n"))
bug('C27', PP, ("        self.dmiter = DMIterator(\n            files,", "        if self.dmiter is None: self.dmiter = DMIterator(\n            files,"))
bug('C27', PP, ("        self.worker_pool = WorkerPool(\n", "        if self.worker_pool is None: self.worker_pool = WorkerPool(\n"))
bug('C27', PP, ("        peaks = []\n        for fnames in self", "        peaks = self.peaks\n        for fnames in self"), (_RESET, _RESET.replace("        self.peaks = []\n", "")))
bug('C27', PP, ("        self.peaks = sorted(peaks, key=lambda p: p.period)", "        self.peaks.extend(sorted(peaks, key=lambda p: p.period))"), (_RESET, _RESET.replace("        self.peaks = []\n", "")))
bug('C27', PP, ("        self.candidates = []\n\n        self.prepare(files)\n", "        self.candidates = self.candidates[:0] if files else self.candidates\n\n        self.prepare(files)\n"))
bug('C27', PP, ("        nmax = params['max_number']\n", "        nmax = params['max_number']\n        params['max_number'] = len(clusters_filtered)\n"))
bug('C27', PP, ("        kwargs = self.config['harmonic_flagging']\n", "        kwargs = self.config['harmonic_flagging']\n        kwargs.setdefault('denom_max', len(self.clusters))\n"))
bug('C27', PP, ("        conf = self.config\n\n        # The DM", "        conf = self.config\n        conf['processes'] = min(conf['processes'], len(files))\n\n        # The DM"))
bug('C27', PP, ("        conf = self.config\n\n        # The DM", "        conf = self.config\n        conf['dmselect'].update(min=0.0)\n\n        # The DM"))
bug('C27', PP, ("log = logging.getLogger('riptide.pipeline')\n", "log = logging.getLogger('riptide.pipeline')\nALL_PEAKS = []\n"), ("        self.peaks = sorted(peaks, key=lambda p: p.period)", "        ALL_PEAKS.extend(peaks)\n        self.peaks = sorted(ALL_PEAKS, key=lambda p: p.period)"))
bug('C27', PP, ("    @timing\n    def process(self", "    runs = []\n\n    @timing\n    def process(self"), ("        self.peaks = sorted(peaks, key=lambda p: p.period)", "        self.runs.append(len(peaks))\n        self.peaks = sorted(peaks, key=lambda p: p.period)"))
bug('C27', PR, ("def inf2dict(text):", "import functools\n\n@functools.lru_cache()\ndef read_inf(fname):\n    with open(fname) as f:\n        return f.read()\n\n\ndef inf2dict(text):"))
bug('C27', DM, ("    def get_filename(self, dm):", "    _seen = {}\n    def remember(self, key, val):\n        self._seen[key] = val\n\n    def get_filename(self, dm):"))
bug('C27', PP, ("        self.search()\n        self.cluster_peaks()\n        self.flag_harmonics()\n", "        self.search()\n        if self.peaks:\n            self.cluster_peaks()\n        self.flag_harmonics()\n"), (_RESET, _RESET.replace("        self.clusters = []\n", "")))
same(PP, (_RESET, "        self.peaks, self.clusters = [], []\n        self.clusters_filtered, self.candidates = [], []\n        self.prepare(files)\n"))
same(PP, (_RESET, "        self._reset()\n        self.prepare(files)\n"), ("    @timing\n    def process(self", "    def _reset(self):\n        self.peaks = []\n        self.clusters = []\n        self.clusters_filtered = []\n        self.candidates = []\n\n    @timing\n    def process(self"))
same(PP, (_RESET, "        for name in ('peaks', 'clusters', 'clusters_filtered', 'candidates'):\n            setattr(self, name, [])\n        self.prepare(files)\n"))
same(PP, (_RESET, "        self.prepare(files)\n"), ("        if not self.peaks:\n            log.info(\"No peaks found: skipping clustering\")\n", "        self.clusters = []\n        if not self.peaks:\n            log.info(\"No peaks found: skipping clustering\")\n"), ("        log.info(\"Building candidates\")      \n", "        log.info(\"Building candidates\")      \n        self.candidates = []\n"))
same(PP, ("            for cl in clusters:\n                try:", "            for cl in clusters:\n                ranges = dict(self.config)\n                ranges['processes'] = 1\n                try:"))
same(PP, (_RESET, _RESET.replace("        self.prepare(files)\n", "") + "        self.run_count = 1\n        self.prepare(files)\n"))
same(PP, ("        self.prepare(files)\n        self.search()\n        self.cluster_peaks()\n        self.flag_harmonics()\n", "        self.prepare(files)\n        self.search()\n        self._group()\n"), ("    @timing\n    def process(self", "    def _group(self):\n        self.cluster_peaks()\n        self.flag_harmonics()\n\n    @timing\n    def process(self"))

# ---- C28
bug('C28', PP, ("            ts = self.worker_pool.loader(fname)\n", "            try:\n                ts = self.worker_pool.loader(fname)\n            except Exception as err:\n                log.error(err)\n                continue\n"))
bug('C28', PP, ("                    log.error(err)\n                    log.error(traceback.format_exc())\n", "                    log.error(err)\n"))
bug('C28', PP, ("                    log.error(err)\n                    log.error(traceback.format_exc())\n", "                    log.error(traceback.format_exc())\n                    break\n"))
bug('C28', PP, ("            ts = ts.normalise()\n\n            for cl in clusters:\n                try:\n                    rng = self.get_search_range(cl.centre.period)\n", "            for cl in clusters:\n                try:\n                    ts = ts.normalise()\n                    rng = self.get_search_range(cl.centre.period)\n"))
bug('C28', PP, ("        self.save_products(outdir=outdir)\n", "        try:\n            self.save_products(outdir=outdir)\n        except OSError as err:\n            log.error(err)\n"))
bug('C28', PP, ("        writer = CandidateWriter(outdir, plot=self.config['plot_candidates'])", "        writer = CandidateWriter(outdir, plot=self.config['plot_candidates'])\n        import contextlib"), ("        pool.map(writer, arglist)", "        with contextlib.suppress(Exception):\n            pool.map(writer, arglist)"))
bug('C28', PP, ("        pool.map(writer, arglist)", "        pool.map_async(writer, arglist)"))
bug('C28', PP, ("        pool.map(writer, arglist)", "        res = pool.map_async(writer, arglist)\n        res.wait()"))
bug('C28', PP, ("        pool.map(writer, arglist)", "        pool.imap_unordered(writer, arglist)"))
bug('C28', PP, ("        pool.map(writer, arglist)", "        for arg in arglist:\n            pool.apply_async(writer, (arg,))"))
bug('C28', PP, ("    pipeline.process(args.files, args.outdir)\n", "    try:\n        pipeline.process(args.files, args.outdir)\n    except Exception:\n        log.exception('failed')\n"))
bug('C28', PP, ("    pipeline.process(args.files, args.outdir)\n", "    try:\n        pipeline.process(args.files, args.outdir)\n    except Exception:\n        log.exception('failed')\n        raise SystemExit(0)\n"))
bug('C28', PP, ("    pipeline.process(args.files, args.outdir)\n", "    try:\n        pipeline.process(args.files, args.outdir)\n    finally:\n        return\n"))
bug('C28', WPF, ("        ts = self.loader(fname)\n", "        try:\n            ts = self.loader(fname)\n        except IOError as err:\n            log.error(err)\n            return []\n"))
bug('C28', WPF, ("            tsdr, pgram = ffa_search(ts, **kw_search)\n", "            try:\n                tsdr, pgram = ffa_search(ts, **kw_search)\n            except ValueError:\n                continue\n"))
bug('C28', WPF, ("        results = pool.map(self.process_fname, fnames)", "        results = pool.map(self._safe, fnames)"), ("    def process_fname(self, fname):", "    def _safe(self, fname):\n        try:\n            return self.process_fname(fname)\n        except Exception:\n            log.exception(fname)\n            return []\n\n    def process_fname(self, fname):"))
bug('C28', DM, ("            if any([param is None for param in (fmin, fmax, nchans)]):\n                raise ValueError(\"You MUST specify: fmin, fmax, nchans\")\n            else:\n                (self.fmin", "            if True:\n                (self.fmin"))
bug('C28', DM, ("        self.metadata_list = [mdloader(fname) for fname in filenames]\n", "        self.metadata_list = []\n        for fname in filenames:\n            try:\n                self.metadata_list.append(mdloader(fname))\n            except Exception as err:\n                log.warning(err)\n"))
bug('C28', DM, ("        self.metadata_list = [mdloader(fname) for fname in filenames]\n", "        import os\n        self.metadata_list = [mdloader(fname) for fname in filenames if os.path.exists(fname)]\n"))
bug('C28', CVF, ("        raise InvalidPipelineConfig(str(ex)) from None\n", "        log.error(ex)\n        validated = conf\n"))
bug('C28', PR, ("                pair = parse_inf_value(line, parse_int_pair)\n                items['onoff_pairs'].append(pair)\n            except:\n                break\n    num_onoff = len(items['onoff_pairs'])\n\n    lines = lines[num_onoff:]\n    em_band = p(0, str)\n", "                pair = parse_inf_value(line, parse_int_pair)\n                items['onoff_pairs'].append(pair)\n            except:\n                break\n    num_onoff = len(items['onoff_pairs'])\n\n    lines = lines[num_onoff:]\n    try:\n        em_band = p(0, str)\n    except Exception:\n        em_band = 'Radio'\n"))
bug('C28', SER, ("def save_json(fname, obj, **kwargs):", "def save_json(fname, obj, **kwargs):\n    try:\n        _save_json(fname, obj, **kwargs)\n    except TypeError:\n        pass\n\n\ndef _save_json(fname, obj, **kwargs):"))
bug('C28', PR, ("        with open(fname, 'r') as", "        with open(fname, 'r', errors='ignore') as"))
bug('C28', RS, ("    ts = loader(args.fname)\n", "    try:\n        ts = loader(args.fname)\n    except FileNotFoundError as err:\n        print(err)\n        return None\n"))
bug('C28', PP, ("        pool.map(writer, arglist)", "        procs = [multiprocessing.Process(target=writer, args=(a,)) for a in arglist]\n        for p in procs:\n            p.start()\n        for p in procs:\n            p.join()"))
same(PP, ("                    log.error(err)\n                    log.error(traceback.format_exc())\n", "                    log.exception(err)\n"))
same(PP, ("                try:\n                    rng = self.get_search_range(cl.centre.period)\n                    cand = Candidate.from_pipeline_output(\n                        ts, cl, rng['candidates']['bins'], subints=rng['candidates']['subints'])\n                    self.candidates.append(cand)\n\n                # NOTE: this should never happen ideally\n                # But just in case, avoid losing all results due to one candidate\n                # failing to be built\n                except Exception as err:\n                    log.error(err)\n                    log.error(traceback.format_exc())\n", "                self._build_one(ts, cl)\n"), ("    @timing\n    def build_candidates(self):", "    def _build_one(self, ts, cl):\n        try:\n            rng = self.get_search_range(cl.centre.period)\n            cand = Candidate.from_pipeline_output(\n                ts, cl, rng['candidates']['bins'], subints=rng['candidates']['subints'])\n            self.candidates.append(cand)\n        except Exception as err:\n            log.error(err)\n            log.error(traceback.format_exc())\n\n    @timing\n    def build_candidates(self):"))
same(PP, ("                    rng = self.get_search_range(cl.centre.period)\n                    cand = Candidate.from_pipeline_output(\n                        ts, cl, rng['candidates']['bins'], subints=rng['candidates']['subints'])\n                    self.candidates.append(cand)\n", "                    self.candidates.append(self._fold(ts, cl))\n"), ("    @timing\n    def build_candidates(self):", "    def _fold(self, ts, cl):\n        rng = self.get_search_range(cl.centre.period)\n        return Candidate.from_pipeline_output(\n            ts, cl, rng['candidates']['bins'], subints=rng['candidates']['subints'])\n\n    @timing\n    def build_candidates(self):"))
same(PP, ("        pool.map(writer, arglist)\n", "        try:\n            pool.map(writer, arglist)\n        except Exception:\n            log.error('could not write')\n            raise\n"))
same(PP, ("        pool.map(writer, arglist)\n", "        result = pool.map_async(writer, arglist)\n        result.get()\n"))
same(PP, ("        pool.close()\n        pool.join()\n        log.info(\"Data products", "        try:\n            pool.close()\n        finally:\n            pool.join()\n        log.info(\"Data products"))
same(DM, ("        except (ValueError, RuntimeError) as err:", "        except (RuntimeError, ValueError) as err:"))
same(CVF, ("        raise InvalidPipelineConfig(str(ex)) from None\n", "        message = str(ex)\n        raise InvalidPipelineConfig(message) from None\n"))
same(PR, ("            try:\n                pair = parse_inf_value(line, parse_int_pair)\n                items['onoff_pairs'].append(pair)\n            except:\n                break", "            try:\n                pair = parse_inf_value(line, parse_int_pair)\n            except Exception:\n                break\n            else:\n                items['onoff_pairs'].append(pair)"))

import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'cases_cpp.py')).read())
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'cases_more.py')).read())
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'cases_bounds.py')).read())
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'cases_fresh.py')).read())
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'cases_fresh2.py')).read())
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'cases_freshbugs.py')).read())
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'cases_freshbugs2.py')).read())
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'cases_freshbugs3.py')).read())
