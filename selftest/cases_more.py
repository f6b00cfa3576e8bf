# Larger behaviour-preserving rewrites (helpers extracted or inlined, loops rewritten, statements reordered)
TSP, SE, PD, RM, FO, LF, PG, CD, MD, SR = 'time_series.py', 'search.py', 'peak_detection.py', 'running_medians.py', 'folding.py', 'libffa.py', 'periodogram.py', 'candidate.py', 'metadata.py', 'serialization.py'
PL, DI, HT, PC, WP, CV, PRE, SIG, RS = 'pipeline/pipeline.py', 'pipeline/dmiter.py', 'pipeline/harmonic_testing.py', 'pipeline/peak_cluster.py', 'pipeline/worker_pool.py', 'pipeline/config_validation.py', 'reading/presto.py', 'reading/sigproc.py', 'apps/rseek.py'


def _exact(f, old):
    """the text of the file that is `old` up to blank lines"""
    import re
    s = open('/repo/riptide/' + f).read()
    if old is None or old in s:
        return old
    m = re.search(r'\n(?:[ \t]*\n)*'.join(re.escape(l.rstrip()) + r'[ \t]*' for l in old.rstrip('\n').split('\n') if l.strip()) + ('\n' if old.endswith('\n') else ''), s)
    return m.group(0) if m else old


def same(f, *edits):
    CASES.append(('same', [], [(f, _exact(f, a), b) for a, b in edits]))


# ---- time_series.py
same(TSP, ("""        if copy:
            self._data = np.asarray(data, dtype=np.float32).copy()
        else:
            self._data = np.asarray(data, dtype=np.float32)
        self._tsamp = float(tsamp)
        self.metadata = Metadata(metadata) if metadata is not None else Metadata({})
""", """        samples = np.asarray(data, dtype=np.float32)
        self._data = samples.copy() if copy else samples
        self._tsamp = float(tsamp)
        if metadata is None:
            metadata = {}
        self.metadata = Metadata(metadata)
"""))
same(TSP, ("""        m = self.data.mean(dtype=np.float64)
        v = self.data.var(dtype=np.float64)
        norm = v ** 0.5
        
        if inplace:
            self._data = np.asarray((self.data - m) / norm, dtype=np.float32)
        else:
            return TimeSeries((self.data - m) / norm, self.tsamp, metadata=self.metadata)
""", """        out = self._standardised()
        if not inplace:
            return TimeSeries(out, self.tsamp, metadata=self.metadata)
        self._data = np.asarray(out, dtype=np.float32)

    def _standardised(self):
        mean = np.mean(self.data, dtype=np.float64)
        stddev = np.std(self.data, dtype=np.float64)
        return (self.data - mean) / stddev
"""))
same(TSP, ("""        rmed = fast_running_median(self.data, width_samples, minpts)
        if inplace:
            self._data -= rmed
        else:
            return TimeSeries(self.data - rmed, self.tsamp, metadata=self.metadata)
""", """        baseline = fast_running_median(self.data, width_samples, min_points=minpts)
        if not inplace:
            flattened = self.data - baseline
            return TimeSeries(flattened, self.tsamp, metadata=self.metadata)
        np.subtract(self._data, baseline, out=self._data, casting='same_kind')
        return None
"""))
same(TSP, ("""        if inplace:
            self._data = downsample(self.data, factor)
            self._tsamp *= factor
            self.metadata['tobs'] = self.length
        else:
            return TimeSeries(downsample(self.data, factor), factor * self.tsamp, metadata=self.metadata)
""", """        data = downsample(self.data, factor)
        tsamp = self.tsamp * factor
        if not inplace:
            return TimeSeries(data, tsamp, metadata=self.metadata)
        self._data, self._tsamp = data, tsamp
        self.metadata.update(tobs=self.length)
"""))
same(TSP, ("""        with open(fname, 'rb') as fobj:
            fobj.seek(sig.bytesize)
            if metadata['nbits'] == 8:
                dtype = np.int8 if metadata['signed'] else np.uint8
                # Don't forget to cast to float32 after reading !
                data = np.fromfile(fobj, dtype=dtype).astype(np.float32)
            else: # assume float32
                data = np.fromfile(fobj, dtype=np.float32)

        return cls(data, tsamp=sig['tsamp'], metadata=metadata)
""", """        if metadata['nbits'] != 8:
            dtype = np.float32
        elif metadata['signed']:
            dtype = np.int8
        else:
            dtype = np.uint8

        data = np.fromfile(fname, dtype=dtype, offset=sig.bytesize)
        return cls(data.astype(np.float32), sig['tsamp'], metadata=metadata)
"""))
same(TSP, ("""        em_band = ts.metadata['em_band']
        if em_band in ('X-ray', 'Gamma'):
            msg""", """        em_band = metadata['em_band']
        high_energy = ('X-ray', 'Gamma')
        if any(em_band == band for band in high_energy):
            msg"""))
same(TSP, ("""        metadata = Metadata({
            'source_name': 'fake',
            'signal_shape': 'Von Mises',
            'signal_period': period,
            'signal_initial_phase': phi0,
            'signal_duty_cycle': ducy,
            })
        return cls(data, tsamp, copy=False, metadata=metadata)
""", """        attrs = dict(source_name='fake', signal_shape='Von Mises', signal_period=period)
        attrs['signal_initial_phase'] = phi0
        attrs['signal_duty_cycle'] = ducy
        return cls(data, tsamp, metadata=Metadata(attrs))
"""))
# ---- search.py
same(SE, ("""    if deredden:
        tseries = tseries.deredden(rmed_width, minpts=rmed_minpts)
    if not already_normalised:
        tseries = tseries.normalise()

    widths""", """    tseries = _prepare(tseries, deredden, already_normalised, rmed_width, rmed_minpts)
    widths"""), (None, """

def _prepare(tseries, deredden, already_normalised, width, minpts):
    prepared = tseries.deredden(width, minpts=minpts) if deredden else tseries
    return prepared if already_normalised else prepared.normalise()
"""))
same(SE, ("""    periods, foldbins, snrs = libcpp.periodogram(
        tseries.data, tseries.tsamp, widths, 
        period_min, period_max, bins_min, bins_max
        )
    pgram = Periodogram(widths, periods, foldbins, snrs, metadata=tseries.metadata)
    return tseries, pgram""", """    search_args = (period_min, period_max, bins_min, bins_max)
    output = libcpp.periodogram(tseries.data, tseries.tsamp, widths, *search_args)
    return tseries, Periodogram(widths, *output, metadata=tseries.metadata)"""))
# ---- peak_detection.py
same(PD, ("""    w = segwidth / T
""", """    fspan = abs(f[0] - f[-1])
"""), ("    m = ceil(abs(f[-1] - f[0]) / w) # number", "    m = ceil(fspan * T / segwidth) # number"), ("""    n = m * p # effective number of elements
    f = f[:n]
    s = s[:n]

    fc = np.median(f.reshape(m, p), axis=1)
    s25, smed, s75 = np.percentile(s.reshape(m, p), (25, 50, 75), axis=-1)
    sstd = (s75 - s25) / 1.349
    return fc, smed, sstd""", """    def segments(x):
        return x[:m * p].reshape((m, p))

    fc = np.median(segments(f), axis=-1)
    quartiles = np.percentile(segments(s), [25, 50, 75], axis=1)
    smed = quartiles[1]
    sstd = (quartiles[2] - quartiles[0]) / 1.349
    return fc, smed, sstd"""))
same(PD, ("""    if len(fc) >= minseg:
        poly = fit_threshold(fc, sc, polydeg=polydeg)
        polyco = poly.coefficients
    else: # constant threshold if not enough points for fit
        polyco = [smin]
        poly = np.poly1d(polyco)

    # Selected frequencies and frequency indices
    dynthr = poly(np.log(f))
    mask = (s > dynthr) & (s > smin)
    indices = np.where(mask)[0]
    fsel = f[indices]

    clusters = cluster1d(fsel, clrad / T)
    for cl in clusters:
        ix = indices[cl]
        ipeak = s[ix].argmax()
        ipeak = ix[ipeak]
        peak_indices.append(ipeak)
    return peak_indices, polyco""", """    if len(fc) < minseg: # constant threshold if not enough points for fit
        polyco = [smin]
        poly = np.poly1d(polyco)
    else:
        poly = fit_threshold(fc, sc, polydeg=polydeg)
        polyco = poly.coefficients

    # Selected frequencies and frequency indices
    indices, = np.nonzero((s > poly(np.log(f))) & (s > smin))
    for cl in cluster1d(f[indices], clrad / T):
        members = indices[cl]
        peak_indices.append(members[np.argmax(s[members])])
    return peak_indices, polyco"""))
same(PD, ("""        for ipeak in cur_peak_indices:
            peak_freq = f[ipeak]
            peak_bins = pgram.foldbins[ipeak]
            peak_ducy = float(width) / peak_bins

            # NOTE: type enforcement is necessary, otherwise some Peak members
            # have np.float32 type which causes trouble down the line
            # NOTE 2: dm can be None on fake time series
            peak = Peak(
                freq=float(peak_freq), period=float(1.0/peak_freq), width=int(width), 
                ducy=float(peak_ducy), iw=int(iw), ip=int(ipeak), snr=float(s[ipeak]), 
                dm=dm)
            #log.debug(peak)
            peaks.append(peak)
        polycos[iw] = cur_polycos
    
    peaks = sorted(peaks, key=lambda p: p.snr, reverse=True)
    return peaks, polycos""", """        polycos[iw] = cur_polycos
        peaks += [_make_peak(pgram, iw, ipeak) for ipeak in cur_peak_indices]

    peaks.sort(key=lambda p: -p.snr)
    return peaks, polycos


def _make_peak(pgram, iw, ip):
    freq = float(pgram.freqs[ip])
    width = int(pgram.widths[iw])
    return Peak(
        1.0 / freq, freq, width, float(width / pgram.foldbins[ip]),
        int(iw), int(ip), float(pgram.snrs[ip, iw]), pgram.metadata['dm'])"""))
# ---- running_medians.py
same(RM, ("""    factor = int(factor)
    N = (data.size // factor) * factor
    return data[:N].reshape(-1, factor).mean(axis=1)""", """    factor = int(factor)
    nblocks = len(data) // factor
    blocks = np.reshape(data[:nblocks * factor], (nblocks, factor))
    return np.mean(blocks, axis=1)"""))
same(RM, ("""    if not (min_points % 2):
        raise ValueError("min_points must be an odd number")

    scrunch_factor = int(max(1, width_samples / float(min_points)))
    if (scrunch_factor == 1):
        return running_median(data, width_samples)
""", """    if min_points % 2 == 0:
        raise ValueError("min_points must be an odd number")

    scrunch_factor = max(1, int(width_samples / min_points))
    if scrunch_factor < 2:
        return running_median(data, width_samples)
"""), ("""    x_lores = np.arange(scrunched_data.size) * scrunch_factor + 0.5 * (scrunch_factor - 1)
    return np.interp(np.arange(data.size), x_lores, rmed_lores)""", """    first_centre = (scrunch_factor - 1) / 2
    x_lores = first_centre + scrunch_factor * np.arange(len(rmed_lores))
    x_hires = np.arange(len(data))
    return np.interp(x_hires, x_lores, rmed_lores)"""))
# ---- folding.py
same(FO, ("""    Y = np.ascontiguousarray(X.T)
    out = np.asarray([downsample(arr, factor) for arr in Y])
    return np.ascontiguousarray(out.T)""", """    columns = []
    for phase_bin in np.ascontiguousarray(np.transpose(X)):
        columns.append(downsample(phase_bin, factor))
    return np.ascontiguousarray(np.asarray(columns).T)"""))
same(FO, ("""    if not factor > 1:
        raise ValueError("factor must be > 1")
    if not factor < m:
        raise ValueError("factor must be strictly smaller than the number of input lines")
""", """    if not (1 < factor < m):
        raise ValueError("factor must be > 1 and strictly smaller than the number of input lines")
"""))
same(FO, ("""    m = tsdown.nsamp // bins
    nsamp_eff = m * bins
    
    folded = tsdown.data[:nsamp_eff].reshape(m, bins)
    folded *= (m * factor) ** -0.5

    if subints == 1 or m == 1:
        return folded.sum(axis=0)
    elif subints is None:
        return folded
    elif subints == m:
        return folded
    else:
        # vertical downsampling factor
""", """    m, __ = divmod(tsdown.nsamp, bins)
    folded = tsdown.data[:m * bins].reshape(m, bins)
    folded *= 1.0 / np.sqrt(m * factor)

    if m == 1 or subints == 1:
        return np.sum(folded, axis=0)
    if subints is not None and subints != m:
        # vertical downsampling factor
"""), ("""        return downsample_vertical(folded, vf)""", """        folded = downsample_vertical(folded, vf)
    return folded"""))
same(FO, ("""    if period > ts.length:
        raise ValueError("Period exceeds data length")

    tbin = period / bins
    if not tbin > ts.tsamp:
        raise ValueError("Bin width is shorter than sampling time")

    if subints is not None:
        subints = int(subints)
        if not subints >= 1:
            raise ValueError("subints must be >= 1 or None")
        full_periods = ts.length / period
        if subints > full_periods:
            raise ValueError(f"subints ({subints}) exceeds the number of signal periods that fit in the data ({full_periods})")
""", """    tbin = period / bins
    subints = _check_fold_args(ts, period, tbin, subints)
"""), ("def fold(ts,", """def _check_fold_args(ts, period, tbin, subints):
    if period > ts.length:
        raise ValueError("Period exceeds data length")
    if not tbin > ts.tsamp:
        raise ValueError("Bin width is shorter than sampling time")
    if subints is None:
        return None
    subints = int(subints)
    if subints < 1:
        raise ValueError("subints must be >= 1 or None")
    if subints > ts.length / period:
        raise ValueError("subints exceeds the number of signal periods that fit in the data")
    return subints


def fold(ts,"""))
# ---- ffautils, libffa, clustering
same('ffautils.py', ("""    widths = []
    w = 1
    wmax = int(max(1, ducy_max * nbins))
    while w <= wmax:
        widths.append(w)
        w = int(max(w + 1, wtsp * w))
    return np.asarray(widths)""", """    wmax = max(1, int(ducy_max * nbins))
    widths = [1]
    while True:
        nxt = max(widths[-1] + 1, int(wtsp * widths[-1]))
        if nxt > wmax:
            break
        widths.append(nxt)
    return np.asarray(widths)"""))
same(LF, ("""    if m == 1:
        f = np.asarray([f0])
    else:
        s = np.arange(m)
        f = (f0 - s / (m-1.0) * f0**2)
    f /= dt
    return f""", """    if m > 1:
        f = f0 - f0 * f0 * np.arange(m) / (m - 1.0)
    else:
        f = np.asarray([f0])
    return f / dt"""))
same(LF, ("""    if not data.ndim == 1:
        raise ValueError("input data must be one-dimensional")
    if not (isinstance(p, int) and p > 0):
        raise ValueError("p must be an integer > 1")
    if p > data.size:
        raise ValueError("p must be smaller than the total number of samples")
    m = data.size // p
    return ffa2(data[:m*p].reshape(m, p))""", """    if data.ndim != 1:
        raise ValueError("input data must be one-dimensional")
    if not isinstance(p, int) or p <= 0:
        raise ValueError("p must be an integer > 1")
    nsamp = data.size
    if nsamp < p:
        raise ValueError("p must be smaller than the total number of samples")
    used = nsamp - nsamp % p
    return ffa2(data[:used].reshape(-1, p))"""))
same(LF, ("""    cppinput = data.reshape(-1, b).astype(np.float32)
    m = cppinput.shape[0]

    snr = libcpp.snr2(cppinput, widths, stdnoise)

    shape = list(data.shape[:-1]) + [widths.size]
    return snr.reshape(shape)""", """    profiles = data.reshape(-1, b).astype(np.float32)
    snr = libcpp.snr2(profiles, widths, stdnoise)
    return snr.reshape(data.shape[:-1] + (len(widths),))"""))
same('clustering.py', ("""    if not already_sorted:
        indices = x.argsort()
        diff = np.diff(x[indices])
    else:
        indices = np.arange(len(x))
        diff = np.diff(x)
""", """    indices = np.arange(len(x)) if already_sorted else np.argsort(x)
    ordered = x[indices]
    diff = ordered[1:] - ordered[:-1]
"""))
same('clustering.py', ("""    # In this case, there is only one cluster
    if not len(ibreaks):
        return [indices]

    # Cluster bounds indices
    ibounds = np.concatenate(([0], ibreaks+1, [len(x)]))
    
    clusters = [
        indices[start:end]
        for start, end in zip(ibounds[:-1], ibounds[1:])
    ]
    return clusters""", """    clusters = []
    start = 0
    for ib in ibreaks:
        clusters.append(indices[start:ib + 1])
        start = ib + 1
    clusters.append(indices[start:])
    return clusters"""))
# ---- candidate.py
same(CD, ("""        centre = peak_cluster.centre
        P0 = centre.period

        if subints is not None and subints * P0 >= ts.length:""", """        centre = peak_cluster.centre
        P0 = centre.period
        fits = subints is None or subints * P0 < ts.length

        if not fits:"""), ("""        subints_array = ts.fold(centre.period, bins, subints=subints)
        return cls(centre.summary_dict(), ts.metadata, peak_cluster.summary_dataframe(), subints_array)""", """        return cls(
            params=centre.summary_dict(), tsmeta=ts.metadata, peaks=peak_cluster.summary_dataframe(),
            subints=ts.fold(P0, bins, subints))"""))
# ---- metadata.py
same(MD, ("""        for k in SCHEMA_ITEMS:
            if isinstance(k.schema, str):
                self.setdefault(k.schema, None)""", """        reserved = [k.schema for k in SCHEMA_ITEMS if isinstance(k.schema, str)]
        for name in reserved:
            if name not in self:
                self[name] = None"""))
same(MD, ("""        if type(inf) == str:
            inf = PrestoInf(inf)
        attrs = dict(inf)
        attrs['skycoord'] = inf.skycoord
        attrs['fname'] = os.path.realpath(inf.fname)
        attrs['tobs'] = attrs['tsamp'] * attrs['nsamp']
        return cls(attrs)""", """        if isinstance(inf, str):
            inf = PrestoInf(inf)
        tobs = inf['nsamp'] * inf['tsamp']
        return cls(dict(inf, skycoord=inf.skycoord, fname=os.path.realpath(inf.fname), tobs=tobs))"""))
same(MD, ("""        attrs = dict(sh).copy()
        attrs['dm'] = attrs.get('refdm', None)
        attrs['skycoord'] = sh.skycoord
        attrs['source_name'] = attrs.get('source_name', None)
        attrs['mjd'] = attrs.get('tstart', None)
        attrs['fname'] = os.path.realpath(sh.fname)
        attrs['tobs'] = sh.tobs
        return cls(attrs)""", """        attrs = {
            **sh,
            'dm': sh.get('refdm'),
            'mjd': sh.get('tstart'),
            'source_name': sh.get('source_name'),
            'skycoord': sh.skycoord,
            'tobs': sh.tobs,
            'fname': os.path.realpath(sh.fname),
        }
        return cls(attrs)"""))
# ---- serialization.py
same(SR, ("""        if isinstance(obj, np.ndarray):
            b64_bytes = base64.b64encode(np.ascontiguousarray(obj).data)
            b64_str = b64_bytes.decode()
            return {
                '__type__': 'numpy.ndarray',
                'data': b64_str,
                'dtype': str(obj.dtype),
                'shape': obj.shape
            }
""", """        if isinstance(obj, np.ndarray):
            return encode_array(obj)
"""), ("class JSONEncoder(", """def encode_array(arr):
    contents = np.ascontiguousarray(arr)
    return dict(
        __type__='numpy.ndarray', shape=arr.shape, dtype=str(arr.dtype),
        data=base64.b64encode(contents.data).decode())


class JSONEncoder("""))
same(SR, ("""    cls = get_class(typename)
    obj = cls.from_dict(items)
    # Handle version
    if '__version__' in items:
        version = items['__version__']
    else:
        version = get_riptide_version()
    obj.version = version
    return obj""", """    obj = get_class(typename).from_dict(items)
    obj.version = items['__version__'] if '__version__' in items else get_riptide_version()
    return obj"""))
same(SR, ("""    kwargs = dict(kwargs)
    kwargs['cls'] = JSONEncoder
    kwargs.setdefault('indent', 4)
    return json.dumps(obj, **kwargs)""", """    options = {'indent': 4}
    options.update(kwargs)
    options['cls'] = JSONEncoder
    return json.dumps(obj, **options)"""))
same(SR, ("""    with open(fname, 'r') as f:
        return from_json(f.read())""", """    with open(fname) as f:
        text = f.read()
    return from_json(text)"""), ("""    with open(fname, 'w') as f:
        f.write(to_json(obj, **kwargs))""", """    text = to_json(obj, **kwargs)
    with open(fname, 'w') as f:
        f.write(text)"""))
# ---- pipeline.py
same(PL, ("""        min_widths = [
            kw['ffa_search']['period_min'] / kw['ffa_search']['bins_min']
            for kw in search_ranges
        ]
        return min(min_widths)""", """        smallest = None
        for kw in search_ranges:
            width = kw['ffa_search']['period_min'] / kw['ffa_search']['bins_min']
            if smallest is None or width < smallest:
                smallest = width
        return smallest"""))
same(PL, ("""        for rng in ranges:
            pmin = rng['ffa_search']['period_min']
            pmax = rng['ffa_search']['period_max']
            if pmin <= period < pmax:
                return dict(rng)""", """        def contains(rng):
            search = rng['ffa_search']
            return search['period_min'] <= period and period < search['period_max']

        matches = [rng for rng in ranges if contains(rng)]
        if matches:
            return dict(matches[0])"""))
same(PL, ("""        peaks = []
        for fnames in self.dmiter.iterate_filenames(chunksize=self.config['processes']):
            peaks.extend(
                self.worker_pool.process_fname_list(fnames)
            )        
        self.peaks = sorted(peaks, key=lambda p: p.period)
""", """        processes = self.config['processes']
        chunks = self.dmiter.iterate_filenames(chunksize=processes)
        peaks = list(itertools.chain.from_iterable(map(self.worker_pool.process_fname_list, chunks)))
        peaks.sort(key=lambda p: p.period)
        self.peaks = peaks
"""))
same(PL, ("""        freqs = np.asarray([p.freq for p in self.peaks])
        cluster_ids = cluster1d(freqs, clrad, already_sorted=True)

        self.clusters = [
            PeakCluster((self.peaks[ii] for ii in ids))
            for ids in cluster_ids
        ]
""", """        peaks = self.peaks
        freqs = np.array([p.freq for p in peaks])
        clusters = []
        for ids in cluster1d(freqs, clrad, already_sorted=True):
            members = [peaks[ii] for ii in ids]
            clusters.append(PeakCluster(members))
        self.clusters = clusters
"""))
same(PL, ("""        for rank, cl in enumerate(clusters_decreasing_snr):
            cl.rank = rank

        # Flag harmonics
        for F, H in itertools.combinations(clusters_decreasing_snr, 2):
            if F.is_harmonic or H.is_harmonic:
                continue

            related, fraction = htest(F.centre, H.centre, tobs, fmin, fmax, **kwargs)
            if related:
                H.parent_fundamental = F
                H.hfrac = fraction
""", """        for rank in range(len(clusters_decreasing_snr)):
            clusters_decreasing_snr[rank].rank = rank

        # Flag harmonics
        for ii, F in enumerate(clusters_decreasing_snr):
            for H in clusters_decreasing_snr[ii + 1:]:
                if not F.is_harmonic and not H.is_harmonic:
                    related, fraction = htest(F.centre, H.centre, tobs, fmin, fmax, **kwargs)
                    if related:
                        H.hfrac = fraction
                        H.parent_fundamental = F
"""))
same(PL, ("""            clusters_filtered = list(filter(lambda c: c.centre.dm >= dm_min, clusters_filtered))
""", """            clusters_filtered = [c for c in clusters_filtered if c.centre.dm >= dm_min]
"""), ("""            clusters_filtered = list(filter(lambda c: c.centre.snr >= snr_min, clusters_filtered))
""", """            clusters_filtered = [c for c in clusters_filtered if not c.centre.snr < snr_min]
"""), ("""            clusters_filtered = list(filter(lambda c: not c.is_harmonic, clusters_filtered))
""", """            fundamentals = []
            for c in clusters_filtered:
                if c.is_harmonic:
                    continue
                fundamentals.append(c)
            clusters_filtered = fundamentals
"""))
same(PL, ("""        grouped_clusters = defaultdict(list)
        for cl in clusters_decreasing_snr:
            grouped_clusters[cl.centre.dm].append(cl)
""", """        grouped_clusters = {}
        for cl in clusters_decreasing_snr:
            grouped_clusters.setdefault(cl.centre.dm, []).append(cl)
"""), ("""            for cl in clusters:
                try:
                    rng = self.get_search_range(cl.centre.period)
                    cand = Candidate.from_pipeline_output(
                        ts, cl, rng['candidates']['bins'], subints=rng['candidates']['subints'])
                    self.candidates.append(cand)
""", """            for cl in clusters:
                try:
                    self.candidates.append(self._build_one(ts, cl))
"""), ("""    @timing
    def save_products(""", """    def _build_one(self, ts, cl):
        params = self.get_search_range(cl.centre.period)['candidates']
        return Candidate.from_pipeline_output(ts, cl, params['bins'], subints=params['subints'])

    @timing
    def save_products("""))
same(PL, ("""            ts = self.worker_pool.loader(fname)
            ts = ts.deredden(
                width=self.config['dereddening']['rmed_width'], 
                minpts=self.config['dereddening']['rmed_minpts'])
            ts = ts.normalise()
""", """            dered = self.config['dereddening']
            ts = self.worker_pool.loader(fname).deredden(dered['rmed_width'], dered['rmed_minpts'])
            ts.normalise(inplace=True)
"""))
same(PL, ("""        df_peaks = pandas.DataFrame.from_dict([
            peak.summary_dict() for peak in self.peaks
        ])
        df_peaks_fname = os.path.join(outdir, 'peaks.csv')
        df_peaks.to_csv(df_peaks_fname, sep=',', index=False, float_format='%.9f')
""", """        df_peaks_fname = os.path.join(outdir, 'peaks.csv')
        self._write_table([peak.summary_dict() for peak in self.peaks], df_peaks_fname)
"""), ("""            df_cands = pandas.DataFrame.from_dict([
                cand.params for cand in self.candidates
            ])
            df_cands_fname = os.path.join(outdir, 'candidates.csv')
            df_cands.to_csv(df_cands_fname, sep=',', index=False, float_format='%.9f')
""", """            self._write_table([cand.params for cand in self.candidates], os.path.join(outdir, 'candidates.csv'))
"""), ("""    @timing
    def process(self""", """    @staticmethod
    def _write_table(rows, fname):
        table = pandas.DataFrame.from_dict(rows)
        table.to_csv(fname, sep=',', index=False, float_format='%.9f')

    @timing
    def process(self"""))
same(PL, ("""        pool = multiprocessing.Pool(processes=self.config['processes'])
        writer = CandidateWriter(outdir, plot=self.config['plot_candidates'])
        arglist = [(rank, cand) for rank, cand in enumerate(self.candidates)]
        pool.map(writer, arglist)
""", """        writer = CandidateWriter(outdir, self.config['plot_candidates'])
        pool = multiprocessing.Pool(self.config['processes'])
        pool.map(writer, list(enumerate(self.candidates)))
"""))
same(PL, ("""        fname = os.path.join(self.outdir, f'candidate_{rank:04d}.json')
        log.debug(f"Saving to {fname}: {cand}")
        save_json(fname, cand)

        if self.plot:
            fname = os.path.join(self.outdir, f'candidate_{rank:04d}.png')
            log.debug(f"Saving plot to {fname}")
            cand.savefig(fname)
""", """        stem = os.path.join(self.outdir, 'candidate_{:04d}'.format(rank))
        log.debug(f"Saving to {stem}.json: {cand}")
        save_json(stem + '.json', cand)

        if not self.plot:
            return
        log.debug(f"Saving plot to {stem}.png")
        cand.savefig(stem + '.png')
"""))
same(PL, ("""        self.dmiter = DMIterator(
            files,
            conf['dmselect']['min'],
            conf['dmselect']['max'],
            dmsinb_max=conf['dmselect']['dmsinb_max'],
            fmt=conf['data']['format'],
            wmin=self.wmin(),
            fmin=conf['data']['fmin'],
            fmax=conf['data']['fmax'],
            nchans=conf['data']['nchans'],
        )
""", """        dmsel, data = conf['dmselect'], conf['data']
        band = {key: data[key] for key in ('fmin', 'fmax', 'nchans')}
        self.dmiter = DMIterator(
            files, dmsel['min'], dmsel['max'],
            dmsinb_max=dmsel['dmsinb_max'], fmt=data['format'], wmin=self.wmin(), **band)
"""))
same(PL, ("""        self.prepare(files)
        self.search()
        self.cluster_peaks()
        self.flag_harmonics()
""", """        self._find(files)
"""), ("""    @classmethod
    def from_yaml_config(""", """    def _find(self, files):
        self.prepare(files)
        for stage in (self.search, self.cluster_peaks, self.flag_harmonics):
            stage()

    @classmethod
    def from_yaml_config("""))
# ---- dmiter.py
same(DI, ("""    mask = (trial_dms >= dm_start) & (trial_dms <= dm_end)
    trial_dms = trial_dms[mask]
    trial_dms = np.sort(trial_dms)
""", """    trial_dms = np.sort(trial_dms)
    in_range = np.logical_and(dm_start <= trial_dms, trial_dms <= dm_end)
    trial_dms = trial_dms[in_range]
"""))
same(DI, ("""    def largest_in_range(i):
        for j in range(i, trial_dms.size):
            if dm_gap(i, j) > 0:
                return max(j - 1, i + 1)
        return max(j, i + 1)
""", """    def largest_in_range(i):
        j = i
        while j < trial_dms.size and dm_gap(i, j) <= 0:
            j += 1
        return max(j - 1, i + 1)
"""))
same(DI, ("""    icur = 0
    selected = [trial_dms[icur]]
    while True:
        inext = largest_in_range(icur)
        if inext >= trial_dms.size:
            break

        if inext""", """    icur = 0
    selected = [trial_dms[0]]
    inext = largest_in_range(icur)
    while inext < trial_dms.size:
        if inext"""), ("""        selected.append(trial_dms[inext])
        icur = inext
""", """        selected.append(trial_dms[inext])
        icur = inext
        inext = largest_in_range(icur)
"""))
same(DI, ("""        chunk = []
        for dm in self.selected_dms:
            fname = self.metadata_dict[dm]['fname']
            chunk.append(fname)
            if len(chunk) == chunksize:
                yield chunk
                chunk = []
        if chunk: # yield any non-empty, incomplete last chunk
            yield chunk
""", """        fnames = [self.get_filename(dm) for dm in self.selected_dms]
        for start in range(0, len(fnames), chunksize):
            yield fnames[start:start + chunksize]
"""))
same(DI, ("""        self.dm_start = float(dm_start) if dm_start is not None \\
            else min(md['dm'] for md in self.metadata_list)
        self.dm_end = float(dm_end) if dm_end is not None \\
            else max(md['dm'] for md in self.metadata_list)
""", """        all_dms = [md['dm'] for md in self.metadata_list]
        if dm_start is None:
            self.dm_start = min(all_dms)
        else:
            self.dm_start = float(dm_start)
        if dm_end is None:
            self.dm_end = max(all_dms)
        else:
            self.dm_end = float(dm_end)
"""))
same(DI, ("""        return np.median([md['tobs'] for md in self.metadata_list])
""", """        durations = np.array([md['tobs'] for md in self.metadata_list])
        return np.median(durations)
"""), ("""        return max([md['tsamp'] for md in self.metadata_list])
""", """        longest = self.metadata_list[0]['tsamp']
        for md in self.metadata_list[1:]:
            longest = max(longest, md['tsamp'])
        return longest
"""))
same(DI, ("""    if not all([params[0] == p for p in params]):
        raise RuntimeError(
""", """    if any(p != params[0] for p in params):
        raise RuntimeError(
"""))
# ---- harmonic_testing.py
same(HT, ("""    slow, fast = sorted((F, H), key=lambda x: x.freq)
""", """    if F.freq <= H.freq:
        slow, fast = F, H
    else:
        slow, fast = H, F
"""))
same(HT, ("""    dm_delay_absdiff = dm_absdiff * kdm * abs(fmin**-2 - fmax**-2)
    dm_distance = dm_delay_absdiff / min(width(F), width(H))
""", """    band_factor = abs(1.0 / fmin**2 - 1.0 / fmax**2)
    dm_delay_absdiff = kdm * band_factor * dm_absdiff
    narrowest = min(width(X) for X in (F, H))
    dm_distance = dm_delay_absdiff / narrowest
"""))
# ---- peak_cluster.py, worker_pool.py
same(PC, ("""        return max(self, key=lambda peak: peak.snr)
""", """        best = self[0]
        for peak in self[1:]:
            if peak.snr > best.snr:
                best = peak
        return best
"""))
same(PC, ("""        return {
            **self.centre.summary_dict(),
            'npeaks': len(self),
""", """        out = self.centre.summary_dict()
        out['npeaks'] = len(self)
        out.update({
"""), ("""            'fundamental_rank': self.parent_fundamental.rank if self.is_harmonic else self.rank
            }
""", """            'fundamental_rank': self.parent_fundamental.rank if self.is_harmonic else self.rank
            })
        return out
"""))
same(WP, ("""        pool = multiprocessing.Pool(processes=self.processes)
        # results is a list of lists of Detections
        results = pool.map(self.process_fname, fnames)

        # NOTE: don't forget to close the pool to free up RAM
        # NOTE: and don't forget to join, otherwise the coverage module
        # does not properly report coverage for sub-processes spawned by
        # the pool
        pool.close()
        pool.join()
        return [det for dlist in results for det in dlist]
""", """        pool = multiprocessing.Pool(processes=self.processes)
        try:
            results = pool.map(self.process_fname, fnames)
        finally:
            pool.close()
            pool.join()
        detections = []
        for dlist in results:
            detections.extend(dlist)
        return detections
"""))
same(WP, ("""        for conf in self.range_confs:
            kw_search = dict(conf['ffa_search'])
            kw_search.update({
                'deredden': False,
                'already_normalised': True
                })
            tsdr, pgram = ffa_search(ts, **kw_search)
            peaks, polycos = find_peaks(pgram, **conf['find_peaks'])
            allpeaks.extend(peaks)
            del tsdr, pgram, peaks, polycos # Free RAM ASAP
""", """        for conf in self.range_confs:
            allpeaks.extend(self._search_range(ts, conf))
"""), ("""    def process_fname(self""", """    @staticmethod
    def _search_range(ts, conf):
        kw_search = {**conf['ffa_search'], 'deredden': False, 'already_normalised': True}
        __, pgram = ffa_search(ts, **kw_search)
        peaks, __ = find_peaks(pgram, **conf['find_peaks'])
        return peaks

    def process_fname(self"""))
# ---- readers
same(PRE, ("""    if items['breaks']:
        for line in lines:
            try:
                pair = parse_inf_value(line, parse_int_pair)
                items['onoff_pairs'].append(pair)
            except:
                break
""", """    if items['breaks']:
        items['onoff_pairs'].extend(read_onoff_pairs(lines))
"""), ("""def inf2dict(text):""", """def read_onoff_pairs(lines):
    pairs = []
    for line in lines:
        try:
            pairs.append(parse_inf_value(line, parse_int_pair))
        except:
            break
    return pairs


def inf2dict(text):"""))
same(PRE, ("""        return self.fname.rsplit('.', maxsplit=1)[0] + '.dat'
""", """        stem, __, __ = self.fname.rpartition('.')
        return stem + '.dat'
"""))
same(PRE, ("""    if em_band == 'Radio':
        items['fov_arcsec'] = p(1, float)
        items['dm'] = p(2, float)
        items['fbot'] = p(3, float)
        items['bandwidth'] = p(4, float)
        items['nchan'] = p(5, int)
        items['cbw'] = p(6, float)
        items['analyst'] = p(7, str)
""", """    if em_band == 'Radio':
        radio_fields = [
            ('fov_arcsec', float), ('dm', float), ('fbot', float), ('bandwidth', float),
            ('nchan', int), ('cbw', float), ('analyst', str)]
        for num, (name, vtype) in enumerate(radio_fields, start=1):
            items[name] = p(num, vtype)
"""))
same(SIG, ("""    attrs = {}
    while True:
        key, val = read_attribute(fobj, keydb)
        if key == HEADER_END:
            break
        attrs[key] = val
    return attrs, fobj.tell()""", """    attrs = {}
    key, val = read_attribute(fobj, keydb)
    while key != HEADER_END:
        attrs[key] = val
        key, val = read_attribute(fobj, keydb)
    return attrs, fobj.tell()"""))
same(SIG, ("""    if atype == str:
        val = read_str(fobj)
    elif atype == int:
        val, = struct.unpack('i', fobj.read(4))
    elif atype == float:
        val, = struct.unpack('d', fobj.read(8))
    elif atype == bool:
        val, = struct.unpack('B', fobj.read(1)) # B = unsigned char
        val = bool(val)
    else:
""", """    formats = {int: ('i', 4), float: ('d', 8), bool: ('B', 1)}
    if atype == str:
        val = read_str(fobj)
    elif atype in formats:
        code, nbytes = formats[atype]
        val = atype(struct.unpack(code, fobj.read(nbytes))[0])
    else:
"""))
same(SIG, ("""    sign = np.sign(f)
    x = abs(f)
    hh, x = divmod(x, 10000.)
    mm, ss = divmod(x, 100.)
    return sign * (hh + mm / 60.0 + ss / 3600.0)""", """    x = abs(f)
    hh = x // 10000.
    mm = (x % 10000.) // 100.
    ss = (x % 10000.) % 100.
    return np.sign(f) * (hh + (mm + ss / 60.0) / 60.0)"""))
same(SIG, ("""        return (os.path.getsize(self.fname) - self.bytesize) // self.bytes_per_sample
""", """        data_bytes = os.stat(self.fname).st_size - self.bytesize
        return data_bytes // self.bytes_per_sample
"""))
