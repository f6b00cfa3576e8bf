# second batch of bugs written from the statements of the properties alone
PP, WPY, DMP, CD, PKD, CLU, HTP, TSP = ['pipeline/pipeline.py', 'pipeline/worker_pool.py', 'pipeline/dmiter.py', 'candidate.py', 'peak_detection.py',
                                        'clustering.py', 'pipeline/harmonic_testing.py', 'time_series.py']
bug('C25', 'cpp/snr.hpp', ("    const float sum = cpfsum[size - 1]; // sum of input array", "    const float sum = cpfsum[size]; // sum of input array"))
bug('C25', 'cpp/kernels.hpp', ("    float dmax = x[0] - y[0];\n    for (size_t i = 1;", "    float dmax = 0;\n    for (size_t i = 0;"))
bug('C25', 'cpp/snr.hpp', ("diff_max(cpfsum + w, cpfsum, size)", "diff_max(cpfsum + w, cpfsum, size - w)"))
bug('C24', 'cpp/kernels.hpp', ("    double acc = 0;\n    const size_t jmax", "    float acc = 0;\n    const size_t jmax"))
bug('C04', 'cpp/snr.hpp', ("(w > 0) & (w < bins)", "(w > 0) & (w <= bins)"))
bug('C04', 'cpp/snr.hpp', ("!(stdnoise > 0)", "stdnoise < 0"))
bug('C31', 'cpp/running_median.hpp', ("out[size - half + i] = rmed.push(data[size - 1]);", "out[size - half + i] = rmed.push(data[size - 1 - i]);"))
bug('C31', 'cpp/running_median.hpp', ("    for (size_t i = 0; i < half + 1; ++i)\n        rmed.push(data[0]);", "    for (size_t i = 0; i < half; ++i)\n        rmed.push(data[0]);"))
bug('C33', 'cpp/transforms.hpp', ("    const double kt = (ttail.rows - 1.0) / (m - 1.0);", "    const double kt = 1.0 - kh;"))
bug('C33', 'cpp/transforms.hpp', ("        const size_t t = kt * s + 0.5;\n", "        const size_t t = s - h;\n"))
same('cpp/transforms.hpp', ("        const size_t b = s - (h + t);\n        fused_rollback_add(thead.rowptr(h), ttail.rowptr(t), p, h+b, out.rowptr(s));", "        fused_rollback_add(thead.rowptr(h), ttail.rowptr(t), p, s - t, out.rowptr(s));"))
bug('C34', 'cpp/downsample.hpp', ("        const double end = start + f;", "        const double end = std::min(start + f, N - 1.0);"))
same('cpp/downsample.hpp', ("        const double end = start + f;", "        const double end = (k + 1) * f;"))
bug('C07', TSP, ("        v = self.data.var(dtype=np.float64)\n        norm = v ** 0.5\n", "        v = self.data.var(dtype=np.float64, ddof=1 if inplace else 0)\n        norm = v ** 0.5\n"))
bug('C07', TSP, ("            self._tsamp *= factor\n", "            self._tsamp *= len(self.data) / downsample(self.data, factor).size\n"))
bug('C06', TSP, ("            self._data = downsample(self.data, factor)\n            self._tsamp *= factor\n            self.metadata['tobs'] = self.length\n", "            self.metadata['tobs'] = self.length\n            self._data = downsample(self.data, factor)\n            self._tsamp *= factor\n"))
bug('C05', TSP, ("        self.metadata = Metadata(metadata) if metadata is not None else Metadata({})", "        self.metadata = metadata if isinstance(metadata, Metadata) else Metadata(metadata or {})"))
bug('C05', TSP, ("        if inplace:\n            self._data = np.asarray((self.data - m)", "        if inplace or self.data.flags.owndata:\n            self._data = np.asarray((self.data - m)"))
bug('C14', PP, ("        tsamp_max = self.dmiter.tsamp_max()\n", "        tsamp_max = min(md['tsamp'] for md in self.dmiter.metadata_list)\n"))
bug('C14', PP, ("        self.peaks = sorted(peaks, key=lambda p: p.period)\n", "        self.peaks = sorted(peaks, key=lambda p: (p.dm, p.period))\n"))
bug('C14', PP, ("        clrad = conf['clustering']['radius'] / tmed\n", "        clrad = conf['clustering']['radius'] / max(tmed, 1000.0)\n"))
bug('C32', PP, ("            if pmin <= period < pmax:\n", "            if pmin < period <= pmax:\n"))
bug('C32', PP, ("            key=lambda r: r['ffa_search']['period_max']\n", "            key=lambda r: r['ffa_search']['bins_min']\n"))
bug('C32', PP, ("            return dict(ranges[-1])\n", "            return dict(self.config['ranges'][-1])\n"))
bug('C13', PP, ("            clusters_filtered = sorted(clusters_filtered, key=lambda c: c.centre.snr, reverse=True)\n            clusters_filtered = clusters_filtered[:nmax]", "            clusters_filtered = clusters_filtered[:nmax]"))
bug('C13', PP, ("        if dm_min is not None:\n", "        if dm_min:\n"), ("c.centre.dm >= dm_min", "abs(c.centre.dm) >= dm_min"))
bug('C13', PP, ("        if snr_min is not None:\n            log.warning(f\"Applying S/N", "        if snr_min is not None and not params['remove_harmonics']:\n            log.warning(f\"Applying S/N"))
bug('C12', PP, ("            if F.is_harmonic or H.is_harmonic:", "            if H.is_harmonic:"))
bug('C12', PP, ("            related, fraction = htest(F.centre, H.centre, tobs", "            related, fraction = htest(H.centre, F.centre, tobs"))
bug('C12', PP, ("        for rank, cl in enumerate(clusters_decreasing_snr):", "        for rank, cl in enumerate(self.clusters):"))
bug('C15', DMP, ("                return max(j - 1, i + 1)", "                return max(j - 1, i)"))
bug('C15', DMP, ("            if len(chunk) == chunksize:\n                yield chunk\n                chunk = []\n", "            if len(chunk) == chunksize:\n                yield chunk\n                chunk.clear()\n"))
bug('C15', DMP, ("    trial_dms = np.sort(trial_dms)\n", ""))
bug('C15', DMP, ("            self.dm_end = min(self.dm_end, galactic_dm_cap)", "            self.dm_end = galactic_dm_cap"))
bug('C28', WPY, ("        ts = self.loader(fname)\n        dm =", "        try:\n            ts = self.loader(fname)\n        except IOError as err:\n            log.error(err)\n            return allpeaks\n        dm ="))
bug('C16', WPY, ("        results = pool.map(self.process_fname, fnames)", "        results = list(pool.imap_unordered(self.process_fname, fnames))"))
bug('C16', WPY, ("    def process_fname(self, fname):\n        allpeaks = []\n", "    allpeaks = []\n\n    def process_fname(self, fname):\n        allpeaks = self.allpeaks\n"))
bug('C08', WPY, ("            kw_search = dict(conf['ffa_search'])\n            kw_search.update({\n                'deredden': False,\n                'already_normalised': True\n                })", "            kw_search = {'deredden': False, 'already_normalised': True}\n            kw_search.update(conf['ffa_search'])\n            kw_search['deredden'] = conf['ffa_search'].get('deredden', True)"))
bug('C19', PP, ("        arglist = [(rank, cand) for rank, cand in enumerate(self.candidates)]", "        arglist = [(rank, cand) for rank, cand in enumerate(self.candidates, start=1)]"))
bug('C19', PP, ("        pool.map(writer, arglist)\n", "        pool.map_async(writer, arglist)\n        pool.terminate()\n"))
bug('C27', PP, ("        self.clusters_filtered = []\n        self.candidates = []\n\n        self.prepare(files)", "        self.candidates = []\n\n        self.prepare(files)"), ("        clusters_filtered = self.clusters\n\n", "        if not self.clusters:\n            return\n        clusters_filtered = self.clusters\n\n"))
bug('C26', CD, ("        if subints is not None and subints * P0 >= ts.length:", "        if subints is not None and subints > 1 and P0 >= ts.length:"))
bug('C32', CD, ("        centre = peak_cluster.centre\n", "        centre = peak_cluster[0]\n"))
bug('C09', PKD, ("period=float(1.0/peak_freq)", "period=float(pgram.periods[iw])"))
bug('C09', PKD, ("snr=float(s[ipeak])", "snr=float(pgram.snrs[ipeak].max())"))
bug('C09', PKD, ("    peaks = sorted(peaks, key=lambda p: p.snr, reverse=True)\n    return", "    peaks = list({p.ip: p for p in peaks}.values())\n    peaks = sorted(peaks, key=lambda p: p.snr, reverse=True)\n    return"))
bug('C10', PKD, ("    m = ceil(abs(f[-1] - f[0]) / w)", "    m = int(abs(f[-1] - f[0]) / w)"))
bug('C10', PKD, ("    n = m * p # effective number of elements\n    f = f[:n]\n    s = s[:n]\n", "    n = m * p # effective number of elements\n    f = f[:n]\n    s = s[-n:]\n"))
bug('C10', PKD, ("    if len(fc) >= minseg:", "    if len(fc) > minseg:"))
bug('C10', PKD, ("    mask = (s > dynthr) & (s > smin)", "    mask = s > np.clip(dynthr, smin, None)"), ("    clusters = cluster1d(fsel, clrad / T)", "    clusters = cluster1d(fsel, clrad / T * segwidth)"))
same(PKD, ("    mask = (s > dynthr) & (s > smin)", "    mask = s > np.maximum(dynthr, smin)"))
bug('C11', CLU, ("    ibreaks = np.where(abs(diff) > r)[0]", "    ibreaks = np.where(diff > r)[0]"))
bug('C11', CLU, ("    if not len(ibreaks):\n        return [indices]", "    if not len(ibreaks):\n        return [np.arange(len(x) - 1)]"))
bug('C11', CLU, ("        indices = x.argsort()\n        diff = np.diff(x[indices])\n", "        indices = x.argsort()\n        diff = np.diff(np.sort(np.unique(x)))\n"))
bug('C29', HTP, ("    if H == slow:\n", "    if F == slow:\n"))
bug('C29', HTP, ("    phase_distance = phase_absdiff_turns / fast.ducy", "    phase_distance = phase_absdiff_turns / H.ducy"))
bug('C29', HTP, ("min(width(F), width(H))", "min(F.ducy, H.ducy) / fast.freq"))
bug('C29', HTP, ("    fraction = Fraction(fast.freq / slow.freq).limit_denominator(denom_max)", "    fraction = Fraction(slow.freq / fast.freq).limit_denominator(denom_max)\n    fraction = 1 / fraction"))
bug('C29', HTP, ("    snr_distance = abs(H.snr - harmonic_snr_expected)", "    snr_distance = max(0.0, H.snr - harmonic_snr_expected)"))
same(HTP, ("    slow, fast = sorted((F, H), key=lambda x: x.freq)", "    slow, fast = (H, F) if H.freq < F.freq else (F, H)"))
bug('C19', PP, ("        pool.map(writer, arglist)\n", "        pool.map_async(writer, arglist)\n"), ("        pool.close()\n        pool.join()\n        log.info(\"Data products", "        log.info(\"Data products"))
bug('C19', PP, ("        pool = multiprocessing.Pool(processes=self.config['processes'])\n        writer = CandidateWriter(outdir, plot=self.config['plot_candidates'])\n        arglist = [(rank, cand) for rank, cand in enumerate(self.candidates)]\n        pool.map(writer, arglist)\n", "        writer = CandidateWriter(outdir, plot=self.config['plot_candidates'])\n        arglist = [(rank, cand) for rank, cand in enumerate(self.candidates)]\n        with multiprocessing.Pool(processes=self.config['processes']) as pool:\n            pool.map_async(writer, arglist)\n"))
same(PP, ("        pool.map(writer, arglist)\n", "        pool.map_async(writer, arglist).get()\n"))
bug('C26', CD, ("            subints = None\n\n        subints_array", "            subints = int(ts.length / P0)\n            subints = max(subints - 1, 1)\n\n        subints_array"))
