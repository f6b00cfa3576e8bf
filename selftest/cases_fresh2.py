PP = 'pipeline/pipeline.py'
same(PP, ('''        min_widths = [
            kw['ffa_search']['period_min'] / kw['ffa_search']['bins_min']
            for kw in search_ranges
        ]
        return min(min_widths)
''', '''        wmin = None
        for kw in search_ranges:
            w = kw['ffa_search']['period_min'] / kw['ffa_search']['bins_min']
            if wmin is None or w < wmin:
                wmin = w
        return wmin
'''))
same(PP, ('''        if period >= pmax_global:
            return dict(ranges[-1])

        for rng in ranges:
            pmin = rng['ffa_search']['period_min']
            pmax = rng['ffa_search']['period_max']
            if pmin <= period < pmax:
                return dict(rng)
''', '''        if not period < pmax_global:
            return dict(ranges[-1])

        def contains(rng):
            search = rng['ffa_search']
            return search['period_min'] <= period and period < search['period_max']

        for rng in filter(contains, ranges):
            return dict(rng)
'''))
same(PP, ('''        pmin_global = min(rng['ffa_search']['period_min'] for rng in ranges)
        pmax_global = max(rng['ffa_search']['period_max'] for rng in ranges) 
''', '''        bounds = [(rng['ffa_search']['period_min'], rng['ffa_search']['period_max']) for rng in ranges]
        pmin_global = min(lo for lo, __ in bounds)
        pmax_global = max(hi for __, hi in bounds)
'''))
same(PP, ('''        self.clusters = [
            PeakCluster((self.peaks[ii] for ii in ids))
            for ids in cluster_ids
        ]
''', '''        clusters = []
        for ids in cluster_ids:
            members = [self.peaks[ii] for ii in ids]
            clusters.append(PeakCluster(members))
        self.clusters = clusters
'''))
same(PP, ('''        for F, H in itertools.combinations(clusters_decreasing_snr, 2):
            if F.is_harmonic or H.is_harmonic:
                continue

            related, fraction = htest(F.centre, H.centre, tobs, fmin, fmax, **kwargs)

            if related:
                H.parent_fundamental = F
                H.hfrac = fraction
''', '''        for ifund, F in enumerate(clusters_decreasing_snr):
            if F.is_harmonic:
                continue
            for H in clusters_decreasing_snr[ifund + 1:]:
                if H.is_harmonic:
                    continue
                related, fraction = htest(F.centre, H.centre, tobs, fmin, fmax, **kwargs)
                if related:
                    H.parent_fundamental, H.hfrac = F, fraction
'''))
same(PP, ('''        dm_min = params['dm_min']
        if dm_min is not None:
            log.warning(f"Applying DM threshold of {dm_min}")
            clusters_filtered = list(filter(lambda c: c.centre.dm >= dm_min, clusters_filtered))
''', '''        dm_min = params['dm_min']
        if dm_min is not None:
            log.warning(f"Applying DM threshold of {dm_min}")
            clusters_filtered = [c for c in clusters_filtered if not c.centre.dm < dm_min]
'''))
same(PP, ('''        nmax = params['max_number']
        if nmax:
            if len(clusters_filtered) > nmax:
                nleft = len(clusters_filtered)
                nexcess = nleft - nmax
                log.warning(
                    f"Number of clusters remaining ({nleft}) exceeds the maximum specified number of candidates ({nmax}). "
                    f"The faintest {nexcess} will not be saved as candidates"
                )
            clusters_filtered = sorted(clusters_filtered, key=lambda c: c.centre.snr, reverse=True)
            clusters_filtered = clusters_filtered[:nmax]
''', '''        nmax = params['max_number']
        if nmax:
            nleft = len(clusters_filtered)
            brightest_first = sorted(clusters_filtered, key=lambda c: c.centre.snr, reverse=True)
            clusters_filtered = brightest_first[:nmax]
            if nleft > nmax:
                log.warning(
                    f"Number of clusters remaining ({nleft}) exceeds the maximum specified number of candidates ({nmax}). "
                    f"The faintest {nleft - nmax} will not be saved as candidates"
                )
'''))
same(PP, ('''        grouped_clusters = defaultdict(list)
        for cl in clusters_decreasing_snr:
            grouped_clusters[cl.centre.dm].append(cl)
''', '''        grouped_clusters = {}
        for cl in clusters_decreasing_snr:
            grouped_clusters.setdefault(cl.centre.dm, []).append(cl)
'''))
same(PP, ('''            fname = self.dmiter.get_filename(dm)
            ts = self.worker_pool.loader(fname)
            ts = ts.deredden(
                width=self.config['dereddening']['rmed_width'], 
                minpts=self.config['dereddening']['rmed_minpts'])
            ts = ts.normalise()
''', '''            ts = self.load_cleaned(dm)
'''), ('''    @timing
    def build_candidates''', '''    def load_cleaned(self, dm):
        """ Load, de-redden and normalise the time series with given DM """
        dr = self.config['dereddening']
        ts = self.worker_pool.loader(self.dmiter.get_filename(dm))
        return ts.deredden(dr['rmed_width'], minpts=dr['rmed_minpts']).normalise()

    @timing
    def build_candidates'''))
same(PP, ('''        arglist = [(rank, cand) for rank, cand in enumerate(self.candidates)]
        pool.map(writer, arglist)
''', '''        pool.map(writer, list(enumerate(self.candidates)))
'''))
same(PP, ('''        df_peaks_fname = os.path.join(outdir, 'peaks.csv')
        df_peaks.to_csv(df_peaks_fname, sep=',', index=False, float_format='%.9f')
''', '''        df_peaks_fname = os.path.join(outdir, 'peaks.csv')
        save_csv(df_peaks, df_peaks_fname)
'''), ('''            df_clusters.to_csv(df_clusters_fname, sep=',', index=False, float_format='%.9f')
''', '''            save_csv(df_clusters, df_clusters_fname)
'''), ('''            df_cands.to_csv(df_cands_fname, sep=',', index=False, float_format='%.9f')
''', '''            save_csv(df_cands, df_cands_fname)
'''), ('''class Pipeline(''', '''def save_csv(df, fname):
    df.to_csv(fname, sep=',', index=False, float_format='%.9f')


class Pipeline('''))
same(PP, ('''        # Forget the results of any previous run
        self.peaks = []
        self.clusters = []
        self.clusters_filtered = []
        self.candidates = []
''', '''        self.reset()
'''), ('''    def wmin(self):''', '''    def reset(self):
        """ Forget the results of any previous run """
        for name in ('peaks', 'clusters', 'clusters_filtered', 'candidates'):
            setattr(self, name, [])

    def wmin(self):'''))
SG = 'reading/sigproc.py'
same(SG, ('''    if atype == str:
        val = read_str(fobj)
    elif atype == int:
        val, = struct.unpack('i', fobj.read(4))
    elif atype == float:
        val, = struct.unpack('d', fobj.read(8))
    elif atype == bool:
        val, = struct.unpack('B', fobj.read(1)) # B = unsigned char
        val = bool(val)
    else:
        errmsg''', '''    codes = {int: 'i', float: 'd', bool: 'B'}
    if atype == str:
        val = read_str(fobj)
    elif atype in codes:
        code = codes[atype]
        val, = struct.unpack(code, fobj.read(struct.calcsize(code)))
        if atype == bool:
            val = bool(val)
    else:
        errmsg'''))
same(SG, ('''    attrs = {}
    while True:
        key, val = read_attribute(fobj, keydb)
        if key == HEADER_END:
            break
        attrs[key] = val

    return attrs, fobj.tell()
''', '''    attrs = {}
    key, val = read_attribute(fobj, keydb)
    while key != HEADER_END:
        attrs[key] = val
        key, val = read_attribute(fobj, keydb)
    return attrs, fobj.tell()
'''))
same(SG, ('''    sign = np.sign(f)
    x = abs(f)
    hh, x = divmod(x, 10000.)
    mm, ss = divmod(x, 100.)
    return sign * (hh + mm / 60.0 + ss / 3600.0)
''', '''    x = abs(f)
    hh = x // 10000.
    mm = x % 10000. // 100.
    ss = x % 100.
    return np.sign(f) * (hh + mm / 60.0 + ss / 3600.0)
'''))
CVF = 'pipeline/config_validation.py'
same(CVF, ('''    for a, b in zip(ranges[:-1], ranges[1:]):
        period_max_a = a['ffa_search']['period_max']
        period_min_b = b['ffa_search']['period_min']
        if not period_max_a == period_min_b:
''', '''    for ii in range(1, len(ranges)):
        period_max_a = ranges[ii - 1]['ffa_search']['period_max']
        period_min_b = ranges[ii]['ffa_search']['period_min']
        if period_max_a != period_min_b:
'''))
same(CVF, ('''    for rg in ranges:
        validate_range(rg, tsamp_max)
    validate_ranges_contiguity(ranges)
''', '''    validate_ranges_contiguity(ranges)
    for rg in ranges:
        validate_range(rg, tsamp_max)
'''))
DM = 'pipeline/dmiter.py'
same(DM, ('''    mask = (trial_dms >= dm_start) & (trial_dms <= dm_end)
    trial_dms = trial_dms[mask]
    trial_dms = np.sort(trial_dms)
''', '''    trial_dms = np.sort(trial_dms)
    trial_dms = trial_dms[(dm_start <= trial_dms) & (trial_dms <= dm_end)]
'''))
same(DM, ('''        self.dm_start = float(dm_start) if dm_start is not None \\
            else min(md['dm'] for md in self.metadata_list)
''', '''        available = [md['dm'] for md in self.metadata_list]
        self.dm_start = min(available) if dm_start is None else float(dm_start)
'''))
PH, SH, DH, KH, TH, PB, RH = ['cpp/' + x for x in ('periodogram.hpp', 'snr.hpp', 'downsample.hpp', 'kernels.hpp', 'transforms.hpp', 'python_bindings.cpp', 'running_median.hpp')]
same(KH, ('''    float dmax = x[0] - y[0];
    for (size_t i = 1; i < size; ++i)
        {
        const float d = x[i] - y[i];
        if (d > dmax)
            dmax = d;
        }
    return dmax;
''', '''    float dmax = x[0] - y[0];
    for (size_t i = 1; i < size; ++i)
        dmax = std::max(dmax, x[i] - y[i]);
    return dmax;
'''))
same(KH, ('''    const size_t p = shift % size;
    const size_t q = size - p;
    memcpy(out, x + p, q * sizeof(float));
    memcpy(out + q, x, p * sizeof(float));
''', '''    const size_t p = shift % size;
    for (size_t i = 0; i < size; ++i)
        out[i] = (i + p < size) ? x[i + p] : x[i + p - size];
'''))
same(SH, ('''        snr1(block.rowptr(i), block.cols, widths, num_widths, stdnoise, out);
        out += num_widths;
''', '''        snr1(block.rowptr(i), block.cols, widths, num_widths, stdnoise, out + i * num_widths);
'''))
same(SH, ('''        const float h = sqrt((size - w) / float(size * w)); // boxcar height = +h
        const float b = w / float(size - w) * h; // boxcar baseline = -b
        const float dmax = diff_max(cpfsum + w, cpfsum, size);
        const float snr = ((h + b) * dmax - b * sum) / stdnoise;
        out[iw] = snr;
''', '''        const float off = size - w; // bins outside of the boxcar
        const float height = sqrt(off / float(size * w));
        const float base = height * w / off;
        const float dmax = diff_max(cpfsum + w, cpfsum, size);
        out[iw] = (height * dmax - base * (sum - dmax)) / stdnoise;
'''))
same(PH, ('''        const double f = ds_ini * pow(ds_geo, ids); // current downsampling factor
        const double tau = f * tsamp; // current sampling time
        const double period_max_samples = period_max / tau;
        const size_t n = downsampled_size(size, f); // current number of input samples

        // Data too short to fold once, and getting shorter: maximum trial period reached
        if (n < bins_min)
            break;

        // downsample()''', '''        const double f = ds_ini * pow(ds_geo, ids); // current downsampling factor
        const size_t n = downsampled_size(size, f); // current number of input samples

        // Data too short to fold once, and getting shorter: maximum trial period reached
        if (n < bins_min)
            break;
        const double tau = f * tsamp; // current sampling time
        const double period_max_samples = period_max / tau;

        // downsample()'''))
same(PH, ('''            for (size_t s = 0; s < rows_eval; ++s)
                {
                periods[s] = tau * bins * bins / (bins - s / (rows - 1.0));
                foldbins[s] = bins;
                }

            snr += rows_eval * num_widths;
            periods += rows_eval;
            foldbins += rows_eval;
''', '''            const double step = rows - 1.0;
            for (size_t s = 0; s < rows_eval; ++s)
                {
                *periods++ = tau * bins * bins / (bins - s / step);
                *foldbins++ = bins;
                }

            snr += rows_eval * num_widths;
'''))
same(PH, ('''        const size_t bstart = bins_min;
        const size_t bstop = std::min({ bins_max, n, size_t(period_max_samples) });

        /* FFA transform loop */
        for (size_t bins = bstart; bins <= bstop; ++bins)
            {
            const size_t rows = n / bins;
            const float''', '''        const size_t bstop = std::min(std::min(n, bins_max), size_t(period_max_samples));

        /* FFA transform loop */
        size_t bins = bins_min;
        for (; bins < bstop + 1; bins++)
            {
            const size_t rows = n / bins;
            const float'''))
same(DH, ('''    const double k = floor(f);
    const double r = f - k;
    const double x = downsampled_size(num_samples, f) * r;
    if (x > 1)
        return f - 1.0 / 3.0;
    else
        return (k - 1.0) + 2.0/3.0 * pow(x, 2) - x + 1.0;
''', '''    const double k = floor(f);
    const double x = downsampled_size(num_samples, f) * (f - k);
    return (x > 1) ? f - 1.0 / 3.0 : k + x * (2.0 / 3.0 * x - 1.0);
'''))
same(DH, ('''        float acc = wmin * in[imin];
        for (size_t i = imin + 1; i < imax; ++i)
            acc += in[i];
        acc += wmax * in[imax];

        out[k] = acc;
''', '''        float sum = wmin * in[imin] + wmax * in[imax];
        for (const float* x = in + imin + 1; x < in + imax; ++x)
            sum += *x;
        out[k] = sum;
'''))
same(TH, ('''        const size_t h = kh * s + 0.5;
        const size_t t = kt * s + 0.5;
        const size_t b = s - (h + t);
        fused_rollback_add(thead.rowptr(h), ttail.rowptr(t), p, h+b, out.rowptr(s));
''', '''        const size_t h = kh * s + 0.5;
        const size_t t = kt * s + 0.5;
        fused_rollback_add(thead.rowptr(h), ttail.rowptr(t), p, s - t, out.rowptr(s));
'''))
same(RH, ('''    for (size_t i = 0; i < half + 1; ++i)
        rmed.push(data[0]);

    for (size_t i = 1; i < half; ++i)
        rmed.push(data[i]);
''', '''    for (size_t i = 0; i <= half; ++i)
        rmed.push(data[0]);

    size_t next = 1;
    while (next < half)
        rmed.push(data[next++]);
'''))
same(RH, ('''        ring[writepos] = val;
        ++writepos;
        if (writepos >= width)
            writepos = 0;
''', '''        ring[writepos] = val;
        writepos = (writepos + 1) % width;
'''))
