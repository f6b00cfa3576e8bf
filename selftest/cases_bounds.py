# ---------------------------------------------------------------- C02: accesses outside their buffer
bug('C02', DH, ("std::min(floor(end), N - 1.0);", "floor(end);"))
bug('C02', DH, ("std::min(floor(end), N - 1.0);", "std::min(floor(end), N - 0.0);"))
bug('C02', PB, ("std::unique_ptr<float[]> temp(new float[rows * cols]);", "std::unique_ptr<float[]> temp(new float[(rows - 1) * cols]);"))
bug('C02', PB, ("new_cstyle_array<float>({rows, cols})", "new_cstyle_array<float>({rows, cols - 1})"))
bug('C02', PB, ("new float[3 * size]", "new float[2 * size]"))
bug('C02', PB, ("    float* out = temp + size;", "    float* out = temp + size + cols;"))
bug('C02', PB, ("    if (arr_x.size() != arr_y.size())\n    {\n        throw std::invalid_argument(\"Arrays must have the same number of elements\");\n    }\n", ""))
bug('C02', PB, ("arr_x.size() != arr_y.size()", "arr_x.size() < arr_y.size()"))
bug('C02', PB, ("    auto arr_output = new_cstyle_array<float>({num_widths});", "    auto arr_output = new_cstyle_array<float>({widths.data(0)[num_widths - 1]});"))
bug('C02', PB, ("new_cstyle_array<float>({length, num_widths})", "new_cstyle_array<float>({length})"))
bug('C02', PB, ("    const size_t outsize = riptide::downsampled_size(size, f);", "    const size_t outsize = riptide::downsampled_size(size, f + 0.5);"))
bug('C02', PB, ("    auto output = new_cstyle_array<float>({size});\n\n    riptide::running", "    auto output = new_cstyle_array<float>({size - width + 1});\n\n    riptide::running"))
bug('C02', SH, ("*std::max_element(widths, widths + num_widths);", "widths[num_widths - 1];"))
bug('C02', SH, ("new float[size + wmax]", "new float[size + wmax - 1]"))
bug('C02', SH, ("new float[size + wmax]", "new float[2 * wmax]"))
bug('C02', SH, ("        out += num_widths;", "        out += block.cols;"))
bug('C02', SH, ("diff_max(cpfsum + w, cpfsum, size)", "diff_max(cpfsum + w, cpfsum, size + 1)"))
bug('C02', SH, ("std::unique_ptr<float[]> cpfsum_mem(new float[size + wmax]);\n    float* cpfsum = cpfsum_mem.get();", "float cpfsum[size + wmax];"))
bug('C02', KH, ("for (size_t i = 1; i < q; ++i)", "for (size_t i = 1; i <= q; ++i)"))
bug('C02', KH, ("const size_t jmax = std::min(size, nsum);", "const size_t jmax = std::max(size, nsum);"))
bug('C02', KH, ("    const size_t p = shift % size;\n    const size_t q = size - p;\n    add(", "    const size_t p = shift < size ? shift : size / 2 + shift % 2;\n    const size_t q = size - shift % size;\n    add("))
bug('C02', KH, ("    const size_t p = shift % size;\n    const size_t q = size - p;\n    memcpy", "    const size_t p = shift;\n    const size_t q = size - p;\n    memcpy"))
bug('C02', KH, ("memcpy(out, x + p, q * sizeof(float));", "memcpy(out, x + p, size * sizeof(float));"))
bug('C02', PH, ("    const size_t bufsize = downsampled_size(size, ds_ini);", "    const size_t bufsize = downsampled_size(size, ds_ini * ds_geo);"))
bug('C02', PH, ("    const size_t bufsize = downsampled_size(size, ds_ini);", "    const size_t bufsize = downsampled_size(size - bins_min, ds_ini);"))
bug('C02', PH, ("            const size_t rows_eval = std::min(rows, ceilshift(rows, bins, period_ceil));\n\n            transform", "            const size_t rows_eval = rows;\n\n            transform"))
bug('C02', PH, ("snr += rows_eval * num_widths;", "snr += rows_eval * bins;"))
bug('C02', PH, ("periods += rows_eval;", "periods += rows;"))
bug('C02', TH, ("const double kt = (ttail.rows - 1.0) / (m - 1.0);", "const double kt = ttail.rows / (m - 1.0);"))
bug('C02', BH, ("rows - h, cols);", "rows, cols);"))
bug('C02', RH, ("        if (writepos >= width)", "        if (writepos > width)"))
bug('C02', RH, ("width - 1, width / 2)", "width, width / 2)"))
bug('C02', RH, ("buffer(width)", "buffer(width - 1)"))
bug('C02', RH, ("    if (!(width < size))\n        throw std::invalid_argument(\"width must be < size\");\n", ""))
bug('C02', RH, ("    for (size_t i = half; i < size; ++i)\n        out[i - half]", "    for (size_t i = half; i <= size; ++i)\n        out[i - half]"))
bug('C02', RH, ("out[size - half + i] = rmed", "out[size - half + i + 1] = rmed"))
