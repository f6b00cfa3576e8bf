KH, SH, DH, PH, TH, BH, RH, PB = ('cpp/' + x for x in ('kernels.hpp', 'snr.hpp', 'downsample.hpp', 'periodogram.hpp', 'transforms.hpp', 'block.hpp', 'running_median.hpp', 'python_bindings.cpp'))
RMP = 'running_medians.py'

# ---------------------------------------------------------------- C01
bug('C01', PB, ("    assert_c_contiguous(arr_x);\n    assert_c_contiguous(arr_y);\n    \n", "    assert_c_contiguous(arr_x);\n"))
bug('C01', PB, ("    assert_c_contiguous(arr_x);\n    assert_c_contiguous(arr_y);\n    \n", "    assert_c_contiguous(arr_x);\n    assert_c_contiguous(arr_x);\n"))
bug('C01', PB, ("    assert_c_contiguous(arr_data);\n    assert_c_contiguous(arr_widths);\n", "    assert_c_contiguous(arr_data);\n"))
bug('C01', PB, ("py::detail::npy_api::NPY_ARRAY_C_CONTIGUOUS_;", "(py::detail::npy_api::NPY_ARRAY_C_CONTIGUOUS_ | py::detail::npy_api::NPY_ARRAY_ALIGNED_);"))
bug('C01', PB, ("py::detail::npy_api::NPY_ARRAY_C_CONTIGUOUS_;", "(py::detail::npy_api::NPY_ARRAY_C_CONTIGUOUS_ | py::detail::npy_api::NPY_ARRAY_F_CONTIGUOUS_);"))
bug('C01', PB, ("    if (!b)\n    {", "    if (!b && arr.size() > 1024)\n    {"))
bug('C01', PB, ("    assert_c_contiguous(arr_input);\n    auto input", "    auto input"))
bug('C01', RMP, ("np.ascontiguousarray(x)", "np.asarray(x)"))
bug('C01', RMP, ("np.ascontiguousarray(x)", "x"))
bug('C01', RMP, ("np.ascontiguousarray(x)", "np.ascontiguousarray(x)[::-1]"))
same(PB, ("    const bool b = arr.flags() & py::detail::npy_api::NPY_ARRAY_C_CONTIGUOUS_;\n    if (!b)\n", "    if (!(arr.flags() & py::array::c_style))\n"))
same(PB, ("    const bool b = arr.flags() & py::detail::npy_api::NPY_ARRAY_C_CONTIGUOUS_;\n    if (!b)\n", "    const int mask = py::detail::npy_api::NPY_ARRAY_C_CONTIGUOUS_;\n    if ((arr.flags() & mask) != mask)\n"))
same(PB, ("    assert_c_contiguous(arr_x);\n    assert_c_contiguous(arr_widths);\n    auto x = arr_x.unchecked<2>();\n", "    auto x = arr_x.unchecked<2>();\n    assert_c_contiguous(arr_widths);\n    assert_c_contiguous(arr_x);\n"))
same(PB, ("    assert_c_contiguous(arr_x);\n    assert_c_contiguous(arr_y);\n    \n", "    assert_both_contiguous(arr_x, arr_y);\n"), ("py::array_t<float> rollback(", "void assert_both_contiguous(py::array_t<float> a, py::array_t<float> b)\n{\n    assert_c_contiguous(a);\n    assert_c_contiguous(b);\n}\n\n\npy::array_t<float> rollback("))
same(RMP, ("    return riptide.libcpp.running_median(np.ascontiguousarray(x), width_samples)", "    contiguous = np.ascontiguousarray(x)\n    return riptide.libcpp.running_median(contiguous, width_samples)"))
same(RMP, ("np.ascontiguousarray(x)", "np.require(x, requirements=['C'])"))

# ---------------------------------------------------------------- C33
bug('C33', TH, ("    const double kh = (thead.rows - 1.0) / (m - 1.0);", "    const double kh = thead.rows / (m + 0.0);"))
bug('C33', TH, ("const size_t h = kh * s + 0.5;", "const size_t h = kh * s;"))
bug('C33', TH, ("const size_t b = s - (h + t);", "const size_t b = s > h + t ? s - (h + t) : 0;"))
bug('C33', TH, ("p, h+b, out", "p, h, out"))
bug('C33', TH, ("input.rowptr(1), p, 1, out.rowptr(1)", "input.rowptr(1), p, 0, out.rowptr(1)"))
bug('C33', TH, ("merge(temp.head().as_const(), temp.tail().as_const(), out);", "merge(temp.tail().as_const(), temp.head().as_const(), out);"))
bug('C33', BH, ("rows - h, cols);", "rows - h - (rows & 1), cols);"))
bug('C33', BH, ("return BlockTemplate(rowptr(h),", "return BlockTemplate(rowptr(rows - h),"))
bug('C33', KH, ("    const size_t p = shift % size;\n    const size_t q = size - p;\n    add(", "    const size_t p = shift < size ? shift : 0;\n    const size_t q = size - p;\n    add("))
bug('C33', KH, ("add(x + q, y, p, z + q);", "add(x + p, y, p, z + q);"))
same(TH, ("    if (m == 2)\n        {\n        add(input.rowptr(0), input.rowptr(1), p, out.rowptr(0));\n        fused_rollback_add(input.rowptr(0), input.rowptr(1), p, 1, out.rowptr(1));\n        return;\n        }\n    else if (m == 1)\n        {\n        memcpy(out.data, input.data, p * sizeof(float));\n        return;\n        }\n", "    if (m == 1)\n        {\n        memcpy(out.data, input.data, p * sizeof(float));\n        return;\n        }\n    if (m == 2)\n        {\n        const float* first = input.rowptr(0);\n        const float* second = input.rowptr(1);\n        add(first, second, p, out.rowptr(0));\n        fused_rollback_add(first, second, p, 1, out.rowptr(1));\n        return;\n        }\n"))
same(TH, ("        const size_t b = s - (h + t);\n        fused_rollback_add(thead.rowptr(h), ttail.rowptr(t), p, h+b, out.rowptr(s));", "        fused_rollback_add(thead.rowptr(h), ttail.rowptr(t), p, s - t, out.rowptr(s));"))
same(KH, ("    for (size_t i = 0; i < size; ++i)\n        z[i] = x[i] + y[i];", "    const float* const xend = x + size;\n    size_t i = 0;\n    while (i != size)\n        {\n        z[i] = y[i] + x[i];\n        i += 1;\n        }\n    (void) xend;"))
same(KH, ("    add(x, y + p, q, z);\n    add(x + q, y, p, z + q);\n", "    for (size_t i = 0; i < q; ++i)\n        z[i] = x[i] + y[i + p];\n    for (size_t i = 0; i < p; ++i)\n        z[q + i] = x[q + i] + y[i];\n"))
same(KH, ("    add(x, y + p, q, z);\n    add(x + q, y, p, z + q);\n", "    add(x + q, y, p, z + q);\n    add(x, y + p, q, z);\n"))
same(BH, ("        const size_t h = head_size();\n        return BlockTemplate(rowptr(h), rows - h, cols);", "        return BlockTemplate(data + head_size() * cols, rows - head_size(), cols);"))
same(BH, ("{return rows >> 1;}", "{return rows / 2;}"))

# ---------------------------------------------------------------- C34
bug('C34', DH, ("const size_t imax = std::min(floor(end), N - 1.0);", "const size_t imax = std::min(ceil(end), N - 1.0);"))
bug('C34', DH, ("const float wmax = end - imax;", "const float wmax = imax + 1 - end;"))
bug('C34', DH, ("i < imax; ++i)", "i <= imax; ++i)"))
bug('C34', DH, ("const double end = start + f;", "const double end = floor(start) + f;"))
bug('C34', DH, ("return floor(num_samples / f);", "return ceil(num_samples / f);"))
bug('C34', DH, ("acc += wmax * in[imax];", "acc += (imax > imin) ? wmax * in[imax] : 0;"))
bug('C34', PB, ("riptide::downsample(x.data(0), size, f, output", "riptide::downsample(x.data(0), outsize * f, f, output"))
same(DH, ("        float acc = wmin * in[imin];\n        for (size_t i = imin + 1; i < imax; ++i)\n            acc += in[i];\n        acc += wmax * in[imax];\n", "        float acc = 0;\n        for (size_t i = imin + 1; i < imax; ++i)\n            acc += in[i];\n        acc += wmin * in[imin] + wmax * in[imax];\n"))
same(DH, ("const double end = start + f;", "const double end = (k + 1) * f;"))
same(DH, ("(imin + 1) - start;", "1.0 - (start - imin);"))
same(DH, ("size_t downsampled_size(size_t num_samples, double f)\n    {\n    return floor(num_samples / f);", "size_t downsampled_size(size_t num_samples, double f)\n    {\n    const double ratio = num_samples / f;\n    return size_t(ratio);"))

# ---------------------------------------------------------------- C25
bug('C25', PH, ("(bins - s / (rows - 1.0))", "(bins - s / double(rows))"))
bug('C25', PH, ("periods[s] = tau * bins * bins", "periods[s] = f * tsamp * bins * bins_min"))
bug('C25', PH, ("rows * downsampled_variance(size, f)", "rows_all * downsampled_variance(size, f)"), ("            const size_t rows = n / bins;\n            const float", "            const size_t rows = n / bins;\n            const size_t rows_all = n / bins_min;\n            const float"))
bug('C25', SH, ("const float b = w / float(size - w) * h;", "const float b = w / float(size) * h;"))
bug('C25', SH, ("diff_max(cpfsum + w, cpfsum, size)", "diff_max(cpfsum + w, cpfsum, size - w)"))
bug('C25', KH, ("for (size_t i = 1; i < size; ++i)\n        {\n        const float d", "for (size_t i = 1; i + 1 < size; ++i)\n        {\n        const float d"))
bug('C25', KH, ("add_scalar(out, r, q * sumx, out + q * size);", "add_scalar(out, r, sumx, out + q * size);"))
bug('C25', DH, ("return f - 1.0 / 3.0;", "return f - 1.0 / 6.0;"))
bug('C25', SH, ("out += num_widths;", "out += block.cols > num_widths ? num_widths : block.cols;"))
same(SH, ("        const float snr = ((h + b) * dmax - b * sum) / stdnoise;\n        out[iw] = snr;", "        out[iw] = (h * dmax + b * (dmax - sum)) / stdnoise;"))
same(KH, ("        const float d = x[i] - y[i];\n        if (d > dmax)\n            dmax = d;", "        dmax = std::max(dmax, x[i] - y[i]);"), ("#include <cstddef> // size_t\n", "#include <cstddef> // size_t\n#include <algorithm>\n"))
same(PH, ("tau * bins * bins / (bins - s / (rows - 1.0));", "tau * bins / (1.0 - s / (bins * (rows - 1.0)));"))
same(SH, ("        snr1(block.rowptr(i), block.cols, widths, num_widths, stdnoise, out);\n        out += num_widths;", "        snr1(block.rowptr(i), block.cols, widths, num_widths, stdnoise, out + i * num_widths);"))
same(PH, ("            for (size_t s = 0; s < rows_eval; ++s)\n                {\n                periods[s] = tau * bins * bins / (bins - s / (rows - 1.0));\n                foldbins[s] = bins;\n                }\n", "            const double p0 = tau * bins * bins;\n            for (size_t s = 0; s < rows_eval; ++s)\n                periods[s] = p0 / (bins - s / (rows - 1.0));\n            for (size_t s = 0; s < rows_eval; ++s)\n                foldbins[s] = bins;\n"))
same(TH, ("p, h+b, out", "p, (h + b) % p, out"))
same(TH, ("input.rowptr(1), p, 1, out.rowptr(1)", "input.rowptr(1), p, 1 % p, out.rowptr(1)"))

# ---------------------------------------------------------------- C04
FO, LF = 'folding.py', 'libffa.py'
bug('C04', SH, ("if (!(stdnoise > 0))", "if (!(stdnoise >= 0))"))
bug('C04', SH, ("(w > 0) & (w < bins)", "(w > 0) & (w <= bins)"))
bug('C04', SH, ("(w > 0) & (w < bins)", "(w < bins)"))
bug('C04', SH, ("widths + num_widths, \n        [bins]", "widths + num_widths - 1, \n        [bins]"))
bug('C04', DH, ("(f > 1.0) & (f <= size)", "(f >= 1.0) & (f <= size)"))
bug('C04', DH, ("(f > 1.0) & (f <= size)", "(f > 1.0) & (f < size)"))
bug('C04', PH, ('    periodogram_check_arg(bins_min > 1, "bins_min must be > 1");\n', ''))
bug('C04', PH, ("period_max > period_min,", "period_max >= period_min,"))
bug('C04', PH, ("bins_max >= bins_min,", "bins_max > bins_min,"))
bug('C04', PH, ("period_min >= tsamp * bins_min,", "period_min > tsamp * bins_min,"))
bug('C04', PH, ("period_min >= tsamp * bins_min,", "period_max >= tsamp * bins_min,"))
bug('C04', RH, ("    if (!(width < size))", "    if (!(width <= size))"))
bug('C04', RH, ("    if (!(width % 2))", "    if (width > 1 && !(width % 2) && size % 2)"))
bug('C04', PB, ("riptide::check_trial_widths(widths.data(0), num_widths, bins_min);", "riptide::check_trial_widths(widths.data(0), num_widths, bins_max);"))
bug('C04', PB, ("    riptide::check_trial_widths(widths.data(0), num_widths, cols); \n", "    riptide::check_trial_widths(widths.data(0), num_widths, x.size()); \n"))
bug('C04', PB, ("    riptide::check_stdnoise(stdnoise);\n    riptide::check_trial_widths(widths.data(0), num_widths, size); \n", "    riptide::check_trial_widths(widths.data(0), num_widths, size); \n"))
bug('C04', LF, ("    if p > data.size:\n        raise ValueError", "    if p >= data.size:\n        raise ValueError"))
bug('C04', LF, ("isinstance(p, int) and p > 0", "isinstance(p, int) and p >= 0"))
bug('C04', LF, ("isinstance(p, int) and p > 0", "isinstance(p, int) and p"))
bug('C04', LF, ("    if not N >= p:", "    if not N > p:"))
bug('C04', FO, ("    if period > ts.length:", "    if period >= ts.length:"))
bug('C04', FO, ("    if not tbin > ts.tsamp:", "    if not tbin >= ts.tsamp:"))
bug('C04', FO, ("if not subints >= 1:", "if not subints >= 0:"))
bug('C04', FO, ("if subints > full_periods:", "if subints > int(full_periods) + 1:"))
bug('C04', RMP, ("    if not (min_points % 2):", "    if not (min_points % 2) and width_samples > min_points:"))
same(SH, ("    bool b = (num_widths > 0) && std::all_of(\n        widths, \n        widths + num_widths, \n        [bins](size_t w){return (w > 0) & (w < bins);}\n        );\n\n    if (!b)\n", "    bool b = num_widths == 0;\n    for (size_t i = 0; i < num_widths; ++i)\n        b = b || widths[i] == 0 || widths[i] >= bins;\n    if (b)\n"))
same(SH, ("    bool b = (num_widths > 0) && std::all_of(\n        widths, \n        widths + num_widths, \n        [bins](size_t w){return (w > 0) & (w < bins);}\n        );\n\n    if (!b)\n", "    if (num_widths == 0)\n        throw std::invalid_argument(\"no trial widths\");\n    const bool bad = std::any_of(widths, widths + num_widths, [bins](size_t w){return w == 0 || w >= bins;});\n    if (bad)\n"))
same(DH, ("    bool valid = (f > 1.0) & (f <= size);\n    if (!valid)", "    if (f <= 1.0 || f > size)"))
same(PH, ('    periodogram_check_arg(tsamp > 0, "tsamp must be > 0");\n    periodogram_check_arg(period_min > 0, "period_min must be > 0");\n', '    if (!(tsamp > 0))\n        throw std::invalid_argument("tsamp must be > 0");\n    periodogram_check_arg(period_min > 0, "period_min must be > 0");\n'))
same(PH, ("bins_min > 1,", "bins_min >= 2,"))
same(RH, ("    if (!(width % 2))\n", "    const bool odd = width & 1;\n    if (!odd)\n"))
same(RH, ("    if (!(width % 2))\n", "    if (width % 2 == 0)\n"), ("    if (!(width < size))", "    if (width >= size)"))
same(LF, ("    if not (isinstance(p, int) and p > 0):\n        raise ValueError(\"p must be an integer > 1\")\n    if p > data.size:\n        raise ValueError(\"p must be smaller than the total number of samples\")\n    m = data.size // p\n", "    n = data.size\n    if not isinstance(p, int) or p < 1:\n        raise ValueError(\"p must be an integer > 1\")\n    m = n // p\n    if p > n:\n        raise ValueError(\"p must be smaller than the total number of samples\")\n"))
same(FO, ("    if subints is not None:\n        subints = int(subints)\n        if not subints >= 1:\n            raise ValueError(\"subints must be >= 1 or None\")\n\n        full_periods = ts.length / period\n        if subints > full_periods:\n            raise ValueError(f\"subints ({subints}) exceeds the number of signal periods that fit in the data ({full_periods})\")\n", "    if subints is not None:\n        subints = _check_subints(int(subints), ts.length / period)\n"), ("def fold(ts,", "def _check_subints(subints, full_periods):\n    if subints < 1:\n        raise ValueError(\"subints must be >= 1 or None\")\n    if full_periods < subints:\n        raise ValueError(\"too many\")\n    return subints\n\n\ndef fold(ts,"))

# ---------------------------------------------------------------- C03
_LEN = "            const size_t rows_eval = std::min(rows, ceilshift(rows, bins, period_ceil));\n            length += rows_eval;"
bug('C03', PH, (_LEN, "            const size_t rows_eval = ceilshift(rows, bins, period_ceil);\n            length += rows_eval;"))
bug('C03', PH, (_LEN, "            const size_t rows_eval = std::min(rows, ceilshift(rows, bins, bins + 1.0));\n            length += rows_eval;"))
bug('C03', PH, (_LEN, "            const size_t rows_eval = std::min(rows, ceilshift(rows, bins, period_ceil) + 1);\n            length += rows_eval;"))
_BR = "        // Data too short to fold once, and getting shorter: maximum trial period reached\n        if (n < bins_min)\n            break;\n\n        // Min"
bug('C03', PH, (_BR, "        if (n <= bins_min)\n            break;\n\n        // Min"))
bug('C03', PH, ("    const double ds_geo", "    double ds_geo") if False else ("            snr += rows_eval * num_widths;", "            snr += rows * num_widths;"))
bug('C03', PH, ("            periods += rows_eval;\n            foldbins += rows_eval;", "            periods += rows_eval;\n            foldbins += rows;"))
bug('C03', PH, ("                foldbins[s] = bins;", "                foldbins[s] = bstart;"))
bug('C03', PH, ("ConstBlock(ffaout, rows_eval, bins)", "ConstBlock(ffaout, rows, bins)"))
bug('C03', PH, ("            for (size_t s = 0; s < rows_eval; ++s)\n                {\n                periods", "            for (size_t s = 0; s < rows; ++s)\n                {\n                periods"))
bug('C03', PB, ("periodogram_length(size, tsamp, period_min, period_max, bins_min, bins_max);\n\n    auto periods", "periodogram_length(size, tsamp, period_min, period_max, bins_min, bins_max - 1);\n\n    auto periods"))
bug('C03', PB, ("new_cstyle_array<float>({length, num_widths})", "new_cstyle_array<float>({num_widths, length})"))
bug('C03', PB, ("new_cstyle_array<float>({length, num_widths})", "new_cstyle_array<float>({length, std::min(num_widths, bins_min)})"))
bug('C03', PH, ("        const size_t bstop = std::min({ bins_max, n, size_t(period_max_samples) });\n\n        /* FFA transform loop */\n        for (size_t bins = bstart; bins <= bstop; ++bins)\n            {\n            const size_t rows = n / bins;\n            const double", "        const size_t bstop = std::min({ bins_max, size_t(period_max_samples) });\n\n        /* FFA transform loop */\n        for (size_t bins = bstart; bins <= bstop; ++bins)\n            {\n            const size_t rows = n / bins;\n            const double"))
same(PH, (_LEN, "            length += std::min(ceilshift(rows, bins, period_ceil), rows);"))
same(PH, ("            snr += rows_eval * num_widths;\n            periods += rows_eval;\n            foldbins += rows_eval;", "            foldbins += rows_eval;\n            periods += rows_eval;\n            snr += num_widths * rows_eval;"))
same(PH, ("            for (size_t s = 0; s < rows_eval; ++s)\n                {\n                periods[s] = tau * bins * bins / (bins - s / (rows - 1.0));\n                foldbins[s] = bins;\n                }\n\n            snr += rows_eval * num_widths;\n            periods += rows_eval;\n            foldbins += rows_eval;", "            for (size_t s = 0; s < rows_eval; ++s)\n                {\n                *periods++ = tau * bins * bins / (bins - s / (rows - 1.0));\n                *foldbins++ = bins;\n                }\n\n            snr += rows_eval * num_widths;"))
same(PH, ("/*\nReturns the total number of trial periods in a periodogram\n*/", "inline size_t rows_to_evaluate(size_t rows, size_t bins, double pmax_samples)\n    {\n    const double period_ceil = std::min(pmax_samples, bins + 1.0);\n    return std::min(rows, ceilshift(rows, bins, period_ceil));\n    }\n\n/*\nReturns the total number of trial periods in a periodogram\n*/"),
     ("            const double period_ceil = std::min(period_max_samples, bins + 1.0);\n" + _LEN, "            length += rows_to_evaluate(rows, bins, period_max_samples);"))

# ---------------------------------------------------------------- C24
bug('C24', KH, ("    double acc = 0;\n    const size_t jmax", "    float acc = 0;\n    const size_t jmax"))
bug('C24', KH, ("        acc += x[j];\n        out[j] = acc;", "        acc = static_cast<float>(acc + x[j]);\n        out[j] = acc;"))
bug('C24', KH, ("    for (size_t j = 0; j < jmax; ++j)\n        {\n        acc += x[j];\n        out[j] = acc;\n        }\n", "    out[0] = x[0];\n    for (size_t j = 1; j < jmax; ++j)\n        out[j] = out[j - 1] + x[j];\n    acc = out[jmax - 1];\n"))
bug('C24', DH, ("        const double start = k * f;", "        const float start = k * f;"))
bug('C24', DH, ("        const double end = start + f;", "        const double end = float(start + f);"))
bug('C24', DH, ("void downsample(const float* __restrict__ in, size_t size, double f,", "void downsample(const float* __restrict__ in, size_t size, float f,"))
bug('C24', DH, ("size_t downsampled_size(size_t num_samples, double f)", "size_t downsampled_size(size_t num_samples, float f)"))
bug('C24', TH, ("    const double kh = (", "    const float kh = ("))
bug('C24', PH, ("size_t ceilshift(size_t rows, size_t cols, double pmax)", "size_t ceilshift(size_t rows, size_t cols, float pmax)"))
bug('C24', PH, ("periods[s] = tau * bins * bins / (bins - s / (rows - 1.0));", "periods[s] = tau * bins * bins / (bins - float(s) / (rows - 1));"))
bug('C24', PH, ("periods[s] = tau * bins * bins / (bins - s / (rows - 1.0));", "const float p = tau * bins * bins / (bins - s / (rows - 1.0));\n                periods[s] = p;"))
bug('C24', PB, ("    double tsamp,\n    py::array_t<size_t> arr_widths", "    float tsamp,\n    py::array_t<size_t> arr_widths"))
bug('C24', 'time_series.py', ("self.data.mean(dtype=np.float64)", "self.data.mean()"))
bug('C24', 'time_series.py', ("self.data.var(dtype=np.float64)", "self.data.var(dtype=np.float32)"))
bug('C24', 'time_series.py', ("        v = self.data.var(dtype=np.float64)\n", "        v = np.mean(self.data ** 2) - m ** 2\n"))
bug('C24', 'search.py', ("    pgram = Periodogram(widths, periods, foldbins", "    periods = periods.astype(np.float32)\n    pgram = Periodogram(widths, periods, foldbins"))
bug('C24', 'periodogram.py', ("        return 1.0 / self.periods", "        return np.asarray(1.0 / self.periods, dtype='float32')"))
same(KH, ("    double acc = 0;\n    const size_t jmax = std::min(size, nsum);\n\n    for (size_t j = 0; j < jmax; ++j)\n        {\n        acc += x[j];\n        out[j] = acc;\n        }\n", "    const size_t jmax = std::min(size, nsum);\n    double acc = 0.0;\n    const float* p = x;\n    for (size_t j = 0; j < jmax; ++j)\n        {\n        acc = acc + static_cast<double>(*p++);\n        out[j] = static_cast<float>(acc);\n        }\n"))
same(DH, ("        const float wmin = (imin + 1) - start;", "        const double wmin = (imin + 1) - start;"))
same(DH, ("        float acc = wmin * in[imin];", "        double acc = wmin * in[imin];"))
same('time_series.py', ("        m = self.data.mean(dtype=np.float64)\n        v = self.data.var(dtype=np.float64)\n", "        data = self.data.astype(np.float64)\n        m = data.mean()\n        v = data.var()\n"))
same('time_series.py', ("self.data.mean(dtype=np.float64)", "np.mean(self.data, dtype=float)"))

# ---------------------------------------------------------------- C31 (native part)
bug('C31', RH, ("    for (size_t i = 1; i < half; ++i)\n        rmed.push(data[i]);", "    for (size_t i = 1; i <= half; ++i)\n        rmed.push(data[i]);"))
bug('C31', RH, ("    for (size_t i = 0; i < half + 1; ++i)\n        rmed.push(data[0]);", "    for (size_t i = 0; i < half; ++i)\n        rmed.push(data[0]);"))
bug('C31', RH, ("out[size - half + i] = rmed.push(data[size - 1]);", "out[size - half + i] = rmed.push(data[size - 1 - i]);"))
bug('C31', RH, ("        rmed.push(data[0]);\n", "        rmed.push(data[half - i]);\n"))
bug('C31', RH, ("    for (size_t i = half; i < size; ++i)\n        out[i - half] = rmed.push(data[i]);", "    for (size_t i = half; i < size - 1; ++i)\n        out[i - half] = rmed.push(data[i]);"))
bug('C31', RH, ("    for (size_t i = half; i < size; ++i)\n        out[i - half] = rmed.push(data[i]);", "    for (size_t i = 0; i < size - half; ++i)\n        out[i] = rmed.push(data[i]);"))
bug('C31', RH, ("        if (writepos >= width)", "        if (writepos > width)"))
bug('C31', RH, ("        if (writepos >= width)\n            writepos = 0;", "        if (writepos >= width)\n            writepos = 1;"))
bug('C31', RH, ("width - 1, width / 2)", "width - 1, width / 2 + 1)"))
bug('C31', RH, ("width - 1, width / 2)", "width - 2, width / 2)"))
bug('C31', RH, ("auto rmed = RunningMedian<T>(width);", "auto rmed = RunningMedian<T>(half + half);"))
bug('C31', RH, ("        std::copy(ring.begin(), ring.end(), buffer.begin());\n", "        std::copy(ring.begin() + 1, ring.end(), buffer.begin());\n"))
same(RH, ("        ++writepos;\n        if (writepos >= width)\n            writepos = 0;", "        writepos = (writepos + 1) % width;"))
same(RH, ("        ++writepos;\n        if (writepos >= width)\n            writepos = 0;", "        if (++writepos == width)\n            writepos = 0;"))
same(RH, ("width - 1, width / 2)", "width - 1, (width - 1) / 2)"))
same(RH, ("    for (size_t i = half; i < size; ++i)\n        out[i - half] = rmed.push(data[i]);", "    for (size_t i = 0; i + half < size; ++i)\n        out[i] = rmed.push(data[i + half]);"))
same(RH, ("    for (size_t i = 0; i < half; ++i)\n        out[size - half + i] = rmed.push(data[size - 1]);", "    const T last = data[size - 1];\n    T* tail = out + size - half;\n    for (size_t i = 0; i < half; ++i)\n        tail[i] = rmed.push(last);"))
same(RH, ("    for (size_t i = 0; i < half + 1; ++i)\n        rmed.push(data[0]);\n\n    for (size_t i = 1; i < half; ++i)\n        rmed.push(data[i]);", "    for (size_t i = 0; i < half; ++i)\n        rmed.push(data[0]);\n\n    for (size_t i = 0; i < half; ++i)\n        rmed.push(data[i]);"))
same(RH, ("        ringbuf_push(val);\n", "        ring[writepos] = val;\n        ++writepos;\n        if (writepos >= width)\n            writepos = 0;\n"))
