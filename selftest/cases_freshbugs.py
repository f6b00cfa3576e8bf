# ---------------------------------------------------------------- planted changes, second fresh batch
bug('C01', 'running_medians.py', ("np.ascontiguousarray(x), width_samples)", "np.asarray(x), width_samples)"))
bug('C01', 'running_medians.py', ("np.ascontiguousarray(x), width_samples)", "x if x.strides[0] > 0 else np.ascontiguousarray(x), width_samples)"))
bug('C03', 'cpp/periodogram.hpp', ("            const double period_ceil = std::min(period_max_samples, bins + 1.0);\n            const size_t rows_eval = std::min(rows, ceilshift(rows, bins, period_ceil));\n            length += rows_eval;", "            const float period_ceil = std::min(period_max_samples, bins + 1.0);\n            const size_t rows_eval = std::min(rows, ceilshift(rows, bins, period_ceil));\n            length += rows_eval;"))
bug('C03', 'cpp/periodogram.hpp', ("            periods += rows_eval;\n            foldbins += rows_eval;", "            periods += rows_eval;\n            foldbins += std::min(rows, rows_eval + 1);"))
bug('C03', 'cpp/periodogram.hpp', ("            snr2(block, widths, num_widths, stdnoise, snr);", "            if (rows_eval > 1)\n                snr2(block, widths, num_widths, stdnoise, snr);"))
bug('C04', 'libffa.py', ("if not (isinstance(p, int) and p > 0):\n        raise ValueError(\"p must be an integer > 1\")\n    if p > data", "if not (isinstance(p, int) and p != 0):\n        raise ValueError(\"p must be an integer > 1\")\n    if p > data"))
bug('C04', 'folding.py', ("        if subints > full_periods:", "        if subints > full_periods + 1:"))
bug('C04', 'cpp/snr.hpp', ("[bins](size_t w){return (w > 0) & (w < bins);}", "[bins](size_t w){return (w > 0) & (w <= bins);}"))
bug('C04', 'cpp/downsample.hpp', ("(f > 1.0) & (f <= size)", "(f > 1.0) | (f <= size)"))
bug('C05', 'libffa.py', ("    cppinput = data.reshape(-1, b).astype(np.float32)\n", "    cppinput = data.reshape(-1, b).astype(np.float32, copy=False)\n    cppinput -= cppinput.mean(axis=1, keepdims=True)\n"))
bug('C05', 'pipeline/worker_pool.py', ("            kw_search = dict(conf['ffa_search'])\n", "            kw_search = conf['ffa_search']\n"))
bug('C05', 'peak_detection.py', ("        s = pgram.snrs[:, iw].astype(float)\n", "        s = pgram.snrs[:, iw].astype(float, copy=False)\n        s[~np.isfinite(s)] = 0.0\n"))
bug('C06', 'time_series.py', ("            self._data -= rmed\n", "            self._data = self._data - rmed\n"))
bug('C06', 'time_series.py', ("            self._tsamp *= factor\n            self.metadata['tobs'] = self.length\n", "            self.metadata['tobs'] = self.length\n            self._tsamp *= factor\n"))
bug('C07', 'time_series.py', ("return TimeSeries(downsample(self.data, factor), factor * self.tsamp, metadata=self.metadata)", "return TimeSeries(downsample(self.data, factor), self.length / int(self.nsamp / factor), metadata=self.metadata)"))
bug('C07', 'time_series.py', ("            return TimeSeries(self.data - rmed, self.tsamp, metadata=self.metadata)", "            return TimeSeries(self.data - rmed.astype(np.float32), self.tsamp)"))
bug('C08', 'search.py', ("    if not already_normalised:\n        tseries = tseries.normalise()", "    if not already_normalised or deredden:\n        tseries = tseries.normalise()"))
bug('C08', 'pipeline/worker_pool.py', ("        ts = ts.normalise()\n", "        ts.normalise()\n"))
bug('C09', 'peak_detection.py', ("            peak_bins = pgram.foldbins[ipeak]", "            peak_bins = pgram.foldbins[iw]"))
bug('C09', 'peak_detection.py', ("            peak_ducy = float(width) / peak_bins", "            peak_ducy = float(width) / pgram.foldbins.min()"))
bug('C10', 'peak_detection.py', ("        ipeak = s[ix].argmax()", "        ipeak = (s[ix] - dynthr[ix]).argmax()"))
bug('C10', 'peak_detection.py', ("(s > dynthr) & (s > smin)", "(s > np.maximum(dynthr, 0.0)) & (s >= smin)"))
bug('C10', 'peak_detection.py', ("    n = m * p # effective number of elements\n    f = f[:n]\n    s = s[:n]", "    n = m * p # effective number of elements\n    f = f[-n:]\n    s = s[:n]"))
bug('C11', 'clustering.py', ("np.where(abs(diff) > r)[0]", "np.where(diff > r)[0]"))
bug('C11', 'clustering.py', ("[0], ibreaks+1, [len(x)]", "[0], ibreaks+1, [len(x) - 1]"))
bug('C12', PP, ("            if F.is_harmonic or H.is_harmonic:\n                continue", "            if F.is_harmonic:\n                continue"))
bug('C12', PP, ("        # Assign ranks first\n        for rank, cl in enumerate(clusters_decreasing_snr):", "        # Assign ranks first\n        for rank, cl in enumerate(self.clusters):"))
bug('C13', PP, ("            clusters_filtered = sorted(clusters_filtered, key=lambda c: c.centre.snr, reverse=True)\n            clusters_filtered = clusters_filtered[:nmax]", "            clusters_filtered = clusters_filtered[:nmax]"))
bug('C13', PP, ("        if dm_min is not None:", "        if dm_min:"))
bug('C13', PP, ("c.centre.snr >= snr_min, clusters_filtered", "c.centre.snr >= snr_min, self.clusters"))
bug('C14', PP, ("        self.apply_candidate_filters()\n        self.build_candidates()", "        self.build_candidates()\n        self.apply_candidate_filters()"))
bug('C15', DM, ("            if len(chunk) == chunksize:\n                yield chunk\n                chunk = []", "            if len(chunk) == chunksize:\n                yield chunk\n                chunk.clear()"))
bug('C15', DM, ("            self.dm_end = min(self.dm_end, galactic_dm_cap)", "            self.dm_end = galactic_dm_cap"))
bug('C15', DM, ("(trial_dms >= dm_start) & (trial_dms <= dm_end)", "(trial_dms >= dm_start) & (trial_dms < dm_end)"))
bug('C15', DM, ("                return max(j - 1, i + 1)", "                return j - 1"))
bug('C16', WP, ("        results = pool.map(self.process_fname, fnames)", "        results = list(pool.imap_unordered(self.process_fname, fnames))"))
bug('C17', CVF, ("        Optional('clrad')", "        Optional('clustering_radius')"))
bug('C17', CVF, ("    'plot_candidates': Schema(", "    Optional('plot_candidates'): Schema("))
bug('C18', 'search.py', ("ducy_max=ducy_max, wtsp=wtsp)", "ducy_max=ducy_max)"))
bug('C19', PP, ("            df_clusters = clusters_to_dataframe(self.clusters)", "            df_clusters = clusters_to_dataframe(self.clusters_filtered)"))
bug('C19', PP, ("        self.candidates = sorted(self.candidates, key=lambda c: c.params['snr'], reverse=True)\n", ""))
bug('C20', 'serialization.py', ("base64.b64encode(np.ascontiguousarray(obj).data)", "base64.b64encode(obj.tobytes(order='A'))"))
bug('C20', 'serialization.py', ("'rajd': obj.icrs.ra.deg", "'rajd': obj.ra.deg"))
bug('C20', 'serialization.py', ("        version = items['__version__']\n", "        version = get_riptide_version()\n"))
bug('C21', 'reading/sigproc.py', ("        keydb = sigproc_keydb.copy()\n", ""))
bug('C21', 'reading/sigproc.py', ("    hh, x = divmod(x, 10000.)", "    hh, x = divmod(round(x), 10000.)"))
bug('C21', 'time_series.py', ("np.int8 if metadata['signed'] else np.uint8", "np.uint8 if metadata['signed'] else np.int8"))
bug('C22', 'reading/presto.py', ("            except:\n                break", "            except:\n                continue"))
bug('C22', 'reading/presto.py', ("rsplit('.', maxsplit=1)[0]", "split('.', maxsplit=1)[0]"))
bug('C22', 'reading/presto.py', ("    lines = lines[num_onoff:]", "    lines = lines[num_onoff:] if num_onoff < 2 else lines[2:]"))
bug('C23', 'metadata.py', ("                self.setdefault(k.schema, None)", "                self[k.schema] = self.get(k.schema) or None"))
bug('C23', 'metadata.py', ("        attrs['mjd'] = attrs.get('tstart', None)", "        attrs['mjd'] = attrs.get('tstart', 0.0)"))
bug('C24', 'cpp/periodogram.hpp', ("periods[s] = tau * bins * bins / (bins - s / (rows - 1.0));", "periods[s] = tau * bins * bins / (bins - s / float(rows - 1));"))
bug('C24', 'time_series.py', ("self.data.var(dtype=np.float64)", "self.data.var()"))
bug('C24', 'cpp/kernels.hpp', ("    double acc = 0;", "    float acc = 0;"))
bug('C25', 'cpp/kernels.hpp', ("    add_scalar(out, r, q * sumx, out + q * size);", "    add_scalar(out, r, sumx, out + q * size);"))
bug('C26', 'folding.py', ("    folded *= (m * factor) ** -0.5", "    folded *= (ts.nsamp / bins) ** -0.5"))
bug('C26', 'folding.py', ("    if subints == 1 or m == 1:", "    if subints == 1 or (m == 1 and subints is not None):"))
bug('C27', PP, ("        self.clusters = []\n        self.clusters_filtered = []\n        self.candidates = []\n\n        self.prepare", "        self.clusters_filtered = []\n        self.candidates = []\n\n        self.prepare"))
bug('C28', PP, ("            ts = self.worker_pool.loader(fname)\n            ts = ts.deredden(", "            try:\n                ts = self.worker_pool.loader(fname)\n            except OSError:\n                continue\n            ts = ts.deredden("))
bug('C29', HT, ("phase_distance = phase_absdiff_turns / fast.ducy", "phase_distance = phase_absdiff_turns / min(fast.ducy, slow.ducy)"))
bug('C29', HT, ("    snr_distance = abs(H.snr - harmonic_snr_expected)", "    snr_distance = H.snr - harmonic_snr_expected"))
bug('C30', 'ffautils.py', ("w = int(max(w + 1, wtsp * w))", "w = int(max(w + 1, round(wtsp * w)))"))
bug('C31', 'running_medians.py', ("0.5 * (scrunch_factor - 1)", "0.5 * scrunch_factor"))
bug('C31', 'running_medians.py', ("    rmed_lores = running_median(scrunched_data, min_points)", "    rmed_lores = running_median(scrunched_data, min(min_points, int(width_samples // scrunch_factor) | 1))"))
bug('C32', PP, ("            if pmin <= period < pmax:", "            if pmin < period <= pmax:"))
bug('C32', 'candidate.py', ("subints * P0 >= ts.length", "subints * P0 > 2 * ts.length"))
bug('C33', 'libffa.py', ("    return ffa2(data[:m*p].reshape(m, p))", "    return ffa2(data[-m*p:].reshape(m, p))"))
bug('C34', 'cpp/downsample.hpp', ("const float wmin = (imin + 1) - start;", "const float wmin = (k == 0) ? 1.0 : ceil(start) - start;"))
bug('C01', 'running_medians.py', ('np.ascontiguousarray(x), width_samples)', "x if x.strides[0] != 0 else np.ascontiguousarray(x), width_samples)"))
same('running_medians.py', ('np.ascontiguousarray(x), width_samples)', "x if x.flags.c_contiguous else np.ascontiguousarray(x), width_samples)"))
same('running_medians.py', ('np.ascontiguousarray(x), width_samples)', "x if x.flags['C_CONTIGUOUS'] else np.ascontiguousarray(x), width_samples)"))
bug('C01', 'running_medians.py', ('np.ascontiguousarray(x), width_samples)', "x if x.ndim == 1 else np.ascontiguousarray(x), width_samples)"))
bug('C01', 'running_medians.py', ('np.ascontiguousarray(x), width_samples)', "x if len(x) > 10 else np.ascontiguousarray(x), width_samples)"))
