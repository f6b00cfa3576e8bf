# ---------------------------------------------------------------- refactorings, second fresh batch
PD = 'peak_detection.py'
same(PD, ('''        for ipeak in cur_peak_indices:
            peak_freq = f[ipeak]
            peak_bins = pgram.foldbins[ipeak]
            peak_ducy = float(width) / peak_bins
''', '''        for ipeak in cur_peak_indices:
            peaks.append(make_peak(pgram, f, s, dm, iw, width, ipeak))
            continue
            peak_freq = f[ipeak]
            peak_bins = pgram.foldbins[ipeak]
            peak_ducy = float(width) / peak_bins
'''), ('''@timing
def find_peaks(''', '''def make_peak(pgram, f, s, dm, iw, width, ip):
    freq = f[ip]
    ducy = float(width) / pgram.foldbins[ip]
    return Peak(
        freq=float(freq), period=float(1.0 / freq), width=int(width), ducy=float(ducy),
        iw=int(iw), ip=int(ip), snr=float(s[ip]), dm=dm)


@timing
def find_peaks('''))
same(PD, ('''    clusters = cluster1d(fsel, clrad / T)
    for cl in clusters:
        ix = indices[cl]
        ipeak = s[ix].argmax()
        ipeak = ix[ipeak]
        peak_indices.append(ipeak)
    return peak_indices, polyco''', '''    radius = clrad / T
    for cl in cluster1d(fsel, radius):
        ix = indices[cl]
        peak_indices.append(ix[np.argmax(s[ix])])
    return peak_indices, polyco'''))
same(PD, ('''    mask = (s > dynthr) & (s > smin)
    indices = np.where(mask)[0]
''', '''    above_static = s > smin
    above_dynamic = s > dynthr
    indices = np.where(above_static & above_dynamic)[0]
'''))
same(PD, ('''    peaks = sorted(peaks, key=lambda p: p.snr, reverse=True)
    return peaks, polycos''', '''    peaks.sort(key=lambda p: p.snr, reverse=True)
    return peaks, polycos'''))
same(PD, ('''    if len(fc) >= minseg:
        poly = fit_threshold(fc, sc, polydeg=polydeg)
        polyco = poly.coefficients
    else: # constant threshold if not enough points for fit
        polyco = [smin]
        poly = np.poly1d(polyco)
''', '''    if len(fc) < minseg: # constant threshold if not enough points for fit
        polyco = [smin]
        poly = np.poly1d(polyco)
    else:
        poly = fit_threshold(fc, sc, polydeg=polydeg)
        polyco = poly.coefficients
'''))
same('clustering.py', ('''    if not already_sorted:
        indices = x.argsort()
        diff = np.diff(x[indices])
    else:
        indices = np.arange(len(x))
        diff = np.diff(x)
''', '''    n = len(x)
    indices = np.arange(n) if already_sorted else x.argsort()
    diff = np.diff(x[indices])
'''))
same('clustering.py', ('''    clusters = [
        indices[start:end]
        for start, end in zip(ibounds[:-1], ibounds[1:])
    ]
    return clusters''', '''    clusters = []
    for k in range(len(ibounds) - 1):
        clusters.append(indices[ibounds[k]:ibounds[k + 1]])
    return clusters'''))
HT = 'pipeline/harmonic_testing.py'
same(HT, ('''    related = \\
        dvals['phase_distance'] <= phase_distance_max and \\
        dvals['dm_distance'] <= dm_distance_max and \\
        dvals['snr_distance'] <= snr_distance_max
    fraction = dvals['fraction']
    return related, fraction''', '''    limits = (
        ('phase_distance', phase_distance_max),
        ('dm_distance', dm_distance_max),
        ('snr_distance', snr_distance_max),
    )
    related = all(dvals[key] <= limit for key, limit in limits)
    return related, dvals['fraction']'''))
same(HT, ('''    slow, fast = sorted((F, H), key=lambda x: x.freq)
''', '''    if H.freq < F.freq:
        slow, fast = H, F
    else:
        slow, fast = F, H
'''))
same(HT, ('''    dm_distance = dm_delay_absdiff / min(width(F), width(H))

    # Test S/N difference
    harmonic_snr_expected = F.snr / (fraction.numerator * fraction.denominator) ** 0.5
''', '''    narrowest = min(width(X) for X in (F, H))
    dm_distance = dm_delay_absdiff / narrowest

    # Test S/N difference
    pq = fraction.numerator * fraction.denominator
    harmonic_snr_expected = F.snr / math.sqrt(pq)
'''))
PC = 'pipeline/peak_cluster.py'
same(PC, ('''        return pandas.DataFrame.from_dict([
            peak.summary_dict() for peak in self
            ])
''', '''        rows = []
        for peak in self:
            rows.append(peak.summary_dict())
        return pandas.DataFrame.from_dict(rows)
'''))
same(PC, ('''        return {
            **self.centre.summary_dict(),
            'npeaks': len(self),
''', '''        if self.is_harmonic:
            num, denom, frank = self.hfrac.numerator, self.hfrac.denominator, self.parent_fundamental.rank
        else:
            num, denom, frank = 0, 0, self.rank
        items = dict(self.centre.summary_dict())
        items.update(npeaks=len(self), rank=self.rank, hfrac_num=num, hfrac_denom=denom, fundamental_rank=frank)
        return items
        return {
            **self.centre.summary_dict(),
            'npeaks': len(self),
'''))
same(PC, ('''    clusters = sorted(clusters, key=lambda c: c.centre.snr, reverse=True)
    df = pandas.DataFrame.from_dict([cl.summary_dict() for cl in clusters])
''', '''    rows = [cl.summary_dict() for cl in sorted(clusters, key=lambda c: -c.centre.snr)]
    df = pandas.DataFrame.from_dict(rows)
'''))
FO = 'folding.py'
same(FO, ('''    if subints == 1 or m == 1:
        return folded.sum(axis=0)
    elif subints is None:
        return folded
    elif subints == m:
        return folded
    else:
''', '''    if m == 1 or subints == 1:
        return folded.sum(axis=0)
    if subints is None or subints == m:
        return folded
    else:
'''))
same(FO, ('''    folded = tsdown.data[:nsamp_eff].reshape(m, bins)
    folded *= (m * factor) ** -0.5
''', '''    folded = (m * factor) ** -0.5 * tsdown.data[:nsamp_eff].reshape(-1, bins)
'''))
same(FO, ('''    Y = np.ascontiguousarray(X.T)
    out = np.asarray([downsample(arr, factor) for arr in Y])
    return np.ascontiguousarray(out.T)
''', '''    columns = []
    for arr in np.ascontiguousarray(X.transpose()):
        columns.append(downsample(arr, factor))
    return np.ascontiguousarray(np.asarray(columns).transpose())
'''))
same(FO, ('''    if period > ts.length:
        raise ValueError("Period exceeds data length")

    tbin = period / bins
    if not tbin > ts.tsamp:
        raise ValueError("Bin width is shorter than sampling time")
''', '''    tbin = period / bins
    check_period(ts, period, tbin)
'''), ('''def fold(ts''', '''def check_period(ts, period, tbin):
    if period > ts.length:
        raise ValueError("Period exceeds data length")
    if tbin <= ts.tsamp:
        raise ValueError("Bin width is shorter than sampling time")


def fold(ts'''))
LF = 'libffa.py'
same(LF, ('''    f0 = 1.0 / p
    m = N // p
    if m == 1:
        f = np.asarray([f0])
    else:
        s = np.arange(m)
        f = (f0 - s / (m-1.0) * f0**2)
    f /= dt
    return f
''', '''    m = N // p
    f0 = 1.0 / p
    if m == 1:
        return np.asarray([f0]) / dt
    step = f0 ** 2 / (m - 1.0)
    return (f0 - np.arange(m) * step) / dt
'''))
same(LF, ('''    m = data.size // p
    return ffa2(data[:m*p].reshape(m, p))
''', '''    excess = data.size % p
    whole = data[:data.size - excess]
    return ffa2(whole.reshape(-1, p))
'''))
same(LF, ('''    cppinput = data.reshape(-1, b).astype(np.float32)
    m = cppinput.shape[0]
    snr = libcpp.snr2(cppinput, widths, stdnoise)
    shape = list(data.shape[:-1]) + [widths.size]
    return snr.reshape(shape)
''', '''    profiles = data.reshape(-1, b).astype(np.float32)
    snr = libcpp.snr2(profiles, widths, stdnoise)
    return snr.reshape(data.shape[:-1] + (len(widths),))
'''))
same(LF, ('''    # Add noise
    if stdnoise > 0.0:
        noise = np.random.normal(size=nsamp, loc=0.0, scale=stdnoise)
    else:
        noise = 0.0

    tseries = signal + noise
    return tseries
''', '''    # Add noise
    if not stdnoise > 0.0:
        return signal
    return signal + np.random.normal(loc=0.0, scale=stdnoise, size=nsamp)
'''))
RM = 'running_medians.py'
same(RM, ('''    N = (data.size // factor) * factor
    return data[:N].reshape(-1, factor).mean(axis=1)
''', '''    blocks = data.size // factor
    return data[:blocks * factor].reshape(blocks, factor).mean(axis=-1)
'''))
same(RM, ('''    scrunch_factor = int(max(1, width_samples / float(min_points)))

    if (scrunch_factor == 1):
        return running_median(data, width_samples)
''', '''    scrunch_factor = max(1, int(width_samples / min_points))
    if scrunch_factor < 2:
        return running_median(data, width_samples)
'''))
same(RM, ('''    x_lores = np.arange(scrunched_data.size) * scrunch_factor + 0.5 * (scrunch_factor - 1)
    return np.interp(np.arange(data.size), x_lores, rmed_lores)
''', '''    offset = (scrunch_factor - 1) / 2.0
    x_lores = offset + scrunch_factor * np.arange(len(rmed_lores))
    x_hires = np.arange(len(data))
    return np.interp(x_hires, x_lores, rmed_lores)
'''))
same('search.py', ('''    if deredden:
        tseries = tseries.deredden(rmed_width, minpts=rmed_minpts)
    if not already_normalised:
        tseries = tseries.normalise()

    widths''', '''    tseries = prepare(tseries, deredden, rmed_width, rmed_minpts, already_normalised)
    widths'''), ('''@timing
def ffa''', '''def prepare(tseries, deredden, rmed_width, rmed_minpts, already_normalised):
    """ De-redden then normalise, as requested """
    out = tseries
    if deredden:
        out = out.deredden(rmed_width, minpts=rmed_minpts)
    if already_normalised:
        return out
    return out.normalise()


@timing
def ffa'''))
same('ffautils.py', ('''    widths = []
    w = 1
    wmax = int(max(1, ducy_max * nbins))
    while w <= wmax:
        widths.append(w)
        w = int(max(w + 1, wtsp * w))
    return''', '''    wmax = max(1, int(ducy_max * nbins))
    widths = [1]
    while True:
        w = max(widths[-1] + 1, int(wtsp * widths[-1]))
        if w > wmax:
            break
        widths.append(w)
    return'''))
same('candidate.py', ('''        if subints is not None and subints * P0 >= ts.length:
            msg = (
                f"Period ({P0:.3f}) x requested subints ({subints:d}) exceeds time series length "
                f"({ts.length:.3f}), setting subints = full periods that fit in the data"
            )
            log.debug(msg)
            subints = None

        subints_array = ts.fold(centre.period, bins, subints=subints)
''', '''        too_many = subints is not None and subints * P0 >= ts.length
        if too_many:
            log.debug(
                f"Period ({P0:.3f}) x requested subints ({subints:d}) exceeds time series length "
                f"({ts.length:.3f}), setting subints = full periods that fit in the data"
            )

        subints_array = ts.fold(P0, bins, subints=None if too_many else subints)
'''))
same('candidate.py', ('''        return self.subints.sum(axis=0)
''', '''        return np.sum(self.subints, axis=0)
'''))
same('apps/rseek.py', ('''    peaks = [
        max([peaks[ii] for ii in indices], key=lambda p: p.snr)
        for indices in cluster_indices
    ]
    peaks = sorted(peaks, key=lambda p: p.snr, reverse=True)
''', '''    best = []
    for indices in cluster_indices:
        group = [peaks[ii] for ii in indices]
        best.append(max(group, key=lambda p: p.snr))
    peaks = best
    peaks.sort(key=lambda p: p.snr, reverse=True)
'''))
same('apps/rseek.py', ('''    if not peaks:
        print''', '''    if len(peaks) == 0:
        print'''))
TS = 'time_series.py'
same(TS, ('''        m = self.data.mean(dtype=np.float64)
        v = self.data.var(dtype=np.float64)
        norm = v ** 0.5
        
        if inplace:
            self._data = np.asarray((self.data - m) / norm, dtype=np.float32)
        else:
            return TimeSeries((self.data - m) / norm, self.tsamp, metadata=self.metadata)
''', '''        mean = self.data.mean(dtype=np.float64)
        std = self.data.std(dtype=np.float64)
        scaled = (self.data - mean) / std

        if not inplace:
            return TimeSeries(scaled, self.tsamp, metadata=self.metadata)
        self._data = np.asarray(scaled, dtype=np.float32)
'''))
same(TS, ('''        with open(fname, 'rb') as fobj:
            fobj.seek(sig.bytesize)
            if metadata['nbits'] == 8:
                dtype = np.int8 if metadata['signed'] else np.uint8
                # Don't forget to cast to float32 after reading !
                data = np.fromfile(fobj, dtype=dtype).astype(np.float32)
            else: # assume float32
                data = np.fromfile(fobj, dtype=np.float32)

        return cls(data''', '''        if metadata['nbits'] == 8:
            dtype = np.int8 if metadata['signed'] else np.uint8
        else: # assume float32
            dtype = np.float32

        with open(fname, 'rb') as fobj:
            fobj.seek(sig.bytesize)
            data = np.fromfile(fobj, dtype=dtype)

        if dtype is not np.float32:
            data = data.astype(np.float32)
        return cls(data'''))
same(TS, ('''        if inplace:
            self._data = downsample(self.data, factor)
            self._tsamp *= factor
            self.metadata['tobs'] = self.length
        else:
            return TimeSeries(downsample(self.data, factor), factor * self.tsamp, metadata=self.metadata)
''', '''        data = downsample(self.data, factor)
        tsamp = self.tsamp * factor
        if not inplace:
            return TimeSeries(data, tsamp, metadata=self.metadata)
        self._data, self._tsamp = data, tsamp
        self.metadata['tobs'] = self.length
'''))
DI = 'pipeline/dmiter.py'
same(DI, ('''        chunk = []
        for dm in self.selected_dms:
            fname = self.metadata_dict[dm]['fname']
            chunk.append(fname)
            if len(chunk) == chunksize:
                yield chunk
                chunk = []
        if chunk: # yield any non-empty, incomplete last chunk
            yield chunk
''', '''        fnames = [self.get_filename(dm) for dm in self.selected_dms]
        for start in range(0, len(fnames), chunksize):
            yield fnames[start:start + chunksize]
'''))
same(DI, ('''    params = [get_band_params(md, fmt=fmt) for md in metadata_list]
    if not all([params[0] == p for p in params]):
        raise RuntimeError(
            "Observing band parameters are NOT identical across all dedispersed time series")
    return params[0]
''', '''    params = [get_band_params(md, fmt=fmt) for md in metadata_list]
    first = params[0]
    for p in params[1:]:
        if p != first:
            raise RuntimeError(
                "Observing band parameters are NOT identical across all dedispersed time series")
    return first
'''))
same(DI, ('''        fbot = meta['fbot']
        nchans = meta['nchan']
        ftop = fbot + nchans * meta['cbw']
        fmin = min(fbot, ftop)
        fmax = max(fbot, ftop)
''', '''        nchans = meta['nchan']
        edges = (meta['fbot'], meta['fbot'] + nchans * meta['cbw'])
        fmin, fmax = min(edges), max(edges)
'''))
PR = 'reading/presto.py'
same(PR, ('''        for line in lines:
            try:
                pair = parse_inf_value(line, parse_int_pair)
                items['onoff_pairs'].append(pair)
            except:
                break
''', '''        for line in lines:
            try:
                pair = parse_inf_value(line, parse_int_pair)
            except:
                break
            items['onoff_pairs'].append(pair)
'''))
same(PR, ('''        return self.fname.rsplit('.', maxsplit=1)[0] + '.dat'
''', '''        base, *__ = self.fname.rsplit('.', 1)
        return f"{base}.dat"
'''))
same(PR, ('''    if em_band == 'Radio':
        items['fov_arcsec'] = p(1, float)
        items['dm'] = p(2, float)
        items['fbot'] = p(3, float)
        items['bandwidth'] = p(4, float)
        items['nchan'] = p(5, int)
        items['cbw'] = p(6, float)
        items['analyst'] = p(7, str)
''', '''    radio_fields = (
        ('fov_arcsec', float),
        ('dm', float),
        ('fbot', float),
        ('bandwidth', float),
        ('nchan', int),
        ('cbw', float),
        ('analyst', str),
    )
    if em_band == 'Radio':
        for n, (key, vtype) in enumerate(radio_fields, start=1):
            items[key] = p(n, vtype)
'''))
SE = 'serialization.py'
same(SE, ('''    # Handle version
    if '__version__' in items:
        version = items['__version__']
    else:
        version = get_riptide_version()
    obj.version = version
    return obj
''', '''    # Handle version
    obj.version = items['__version__'] if '__version__' in items else get_riptide_version()
    return obj
'''))
same(SE, ('''        # Handle numpy numeric types
        if isinstance(obj, np.integer):
            return int(obj)

        if isinstance(obj, np.floating):
            return float(obj)
''', '''        # Handle numpy numeric types
        for nptype, pytype in ((np.integer, int), (np.floating, float)):
            if isinstance(obj, nptype):
                return pytype(obj)
'''))
same(SE, ('''    if typename == 'numpy.ndarray':
        b64_bytes = items['data'].encode()
        data = base64.b64decode(b64_bytes)
        # NOTE: frombuffer() returns a read-only view, hence the copy
        return np.frombuffer(data, items['dtype']).reshape(items['shape']).copy()
''', '''    if typename == 'numpy.ndarray':
        return decode_array(items)
'''), ('''def object_hook(''', '''def decode_array(items):
    raw = base64.b64decode(items['data'].encode())
    # NOTE: frombuffer() returns a read-only view, hence the copy
    flat = np.frombuffer(raw, dtype=items['dtype']).copy()
    return flat.reshape(items['shape'])


def object_hook('''))
MD = 'metadata.py'
same(MD, ('''        if type(inf) == str:
            inf = PrestoInf(inf)

        attrs = dict(inf)
        attrs['skycoord'] = inf.skycoord
        attrs['fname'] = os.path.realpath(inf.fname)
        attrs['tobs'] = attrs['tsamp'] * attrs['nsamp']
        return cls(attrs)
''', '''        if type(inf) == str:
            inf = PrestoInf(inf)

        return cls({
            **inf,
            'skycoord': inf.skycoord,
            'fname': os.path.realpath(inf.fname),
            'tobs': inf['nsamp'] * inf['tsamp'],
        })
'''))
same(MD, ('''        attrs['dm'] = attrs.get('refdm', None)
        attrs['skycoord'] = sh.skycoord
        attrs['source_name'] = attrs.get('source_name', None)
        attrs['mjd'] = attrs.get('tstart', None)
''', '''        attrs.setdefault('source_name', None)
        for key, original in (('dm', 'refdm'), ('mjd', 'tstart')):
            attrs[key] = attrs.get(original)
        attrs['skycoord'] = sh.skycoord
'''))
WP = 'pipeline/worker_pool.py'
same(WP, ('''        return [det for dlist in results for det in dlist]
''', '''        detections = []
        for dlist in results:
            detections += dlist
        return detections
'''))
same(WP, ('''            kw_search = dict(conf['ffa_search'])
            kw_search.update({
                'deredden': False,
                'already_normalised': True
                })
            tsdr, pgram = ffa_search(ts, **kw_search)
            peaks, polycos = find_peaks(pgram, **conf['find_peaks'])
            allpeaks.extend(peaks)
            del tsdr, pgram, peaks, polycos # Free RAM ASAP
''', '''            allpeaks.extend(self.search_range(ts, conf))
'''), ('''    def process_fname(self, fname):''', '''    @staticmethod
    def search_range(ts, conf):
        options = {**conf['ffa_search'], 'deredden': False, 'already_normalised': True}
        pgram = ffa_search(ts, **options)[1]
        return find_peaks(pgram, **conf['find_peaks'])[0]

    def process_fname(self, fname):'''))
