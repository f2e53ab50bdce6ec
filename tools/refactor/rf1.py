exec(open('/tmp/rf/rflib.py').read())
sub('utils.py',[
("""    ind = np.digitize(xs, limits)
    return np.where(xs == limits[-1], len(limits) - 1, ind)
""","""    nof_limits = len(limits)
    ind = np.searchsorted(limits, xs, side="right")
    on_the_right_edge = xs == limits[nof_limits - 1]
    ind = np.array(ind)
    ind[on_the_right_edge] = nof_limits - 1
    return ind
"""),
("""    right_lim = copy.deepcopy(data)
    left_lim = copy.deepcopy(data)
    right_lim[:, feature] = limits[ind]
    left_lim[:, feature] = limits[ind - 1]
    dx = limits[ind] - limits[ind - 1]
    data_effect = model(right_lim) - model(left_lim)
    return np.squeeze(data_effect) / dx
""","""    # both ends of the bins in a single call
    nof_points = data.shape[0]
    both_ends = np.concatenate([data, data], axis=0)
    left, right = limits[ind - 1], limits[ind]
    both_ends[:nof_points, feature] = left
    both_ends[nof_points:, feature] = right
    outputs = np.reshape(model(both_ends), (2 * nof_points,))
    difference = outputs[nof_points:] - outputs[:nof_points]
    return difference / (right - left)
"""),
("""    aggregated_effect = np.bincount(ind - 1, df_dxs, minlength=nof_bins)
    points_per_bin = np.bincount(ind - 1, minlength=nof_bins)

    # if no point lies in a bin, store Nan
    bin_effect_mean = np.divide(
        aggregated_effect,
        points_per_bin,
        out=np.ones(aggregated_effect.shape, dtype=float) * empty_symbol,
        where=points_per_bin != 0,
    )
    return""","""    bin_effect_mean = np.full(nof_bins, empty_symbol, dtype=float)
    points_per_bin = np.zeros(nof_bins, dtype=int)
    for k in range(nof_bins):
        members = df_dxs[ind == k + 1]
        points_per_bin[k] = len(members)
        if len(members) > 0:
            bin_effect_mean[k] = np.mean(members)
    return"""),
("""    variance_per_point = (df_dxs - bin_effect_mean[ind - 1]) ** 2
    nof_bins = limits.shape[0] - 1
    aggregated_variance_per_bin = np.bincount(
        ind - 1, variance_per_point, minlength=nof_bins
    )
    points_per_bin = np.bincount(ind - 1, minlength=nof_bins)

    # if less than two points in a bin, store Nan
    bin_variance = np.divide(
        aggregated_variance_per_bin,
        points_per_bin,
        out=np.ones(aggregated_variance_per_bin.shape, dtype=float) * empty_symbol,
        where=points_per_bin > 1,
    )

    # the variance of the estimator
    bin_estimator_variance = np.divide(
        bin_variance,
        points_per_bin,
        out=np.ones(aggregated_variance_per_bin.shape, dtype=float) * empty_symbol,
        where=points_per_bin > 1,
    )
""","""    nof_bins = limits.shape[0] - 1
    bin_variance = np.full(nof_bins, empty_symbol, dtype=float)
    bin_estimator_variance = np.full(nof_bins, empty_symbol, dtype=float)
    for k in range(nof_bins):
        members = df_dxs[ind == k + 1]
        if len(members) < 2:
            continue
        deviation = members - bin_effect_mean[k]
        bin_variance[k] = np.mean(deviation * deviation)
        bin_estimator_variance[k] = bin_variance[k] / len(members)
"""),
("""    bin_effect_1 = copy.deepcopy(x)

    def nan_helper(y):
        return np.isnan(y), lambda z: z.nonzero()[0]

    nans, x = nan_helper(bin_effect_1)
    bin_effect_1[nans] = np.interp(x(nans), x(~nans), bin_effect_1[~nans])
    return bin_effect_1
""","""    missing = np.isnan(x)
    filled = np.array(x)
    positions = np.arange(len(x))
    filled[missing] = np.interp(positions[missing], positions[~missing], x[~missing])
    return filled
"""),
("""    x = np.minimum(x, limits[-1])

    # find where each point belongs to
    ind = np.digitize(x, limits)

    # for each point, find the accumulated full-bin effect
    x_cumsum = (bin_effect * dx**2).cumsum() if square else (bin_effect * dx).cumsum()
    tmp = np.concatenate([[0, 0], x_cumsum])
    full_bin_effect = tmp[ind]

    # for each point, find the remaining effect
    tmp = np.concatenate([[limits[0]], limits])
    deltas = x - tmp[ind]
    deltas[deltas < 0] = 0  # if xs < left_limit => delta = 0
    deltas = deltas**2 if square else deltas
    tmp = np.concatenate([[0.0], bin_effect, [bin_effect[-1]]])
    remaining_effect = deltas * tmp[ind]

    # final effect
    y = full_bin_effect + remaining_effect
    return y
""","""    power = 2 if square else 1
    y = np.zeros(np.shape(x), dtype=float)
    for k in range(len(dx)):
        # the part of the bin that lies on the left of each point
        covered = np.clip(x - limits[k], 0.0, dx[k])
        y = y + bin_effect[k] * covered**power
    return y
"""),
("""    dx = np.array([limits[i + 1] - limits[i] for i in range(len(limits) - 1)])
""","""    dx = np.diff(limits)
"""),
("""    types = [
        "cat" if len(np.unique(data[:, f])) < categorical_limit else "cont"
        for f in range(data.shape[1])
    ]
    return types
""","""    types = []
    for column in data.T:
        nof_values = len(set(column.tolist()))
        types.append("cont" if nof_values >= categorical_limit else "cat")
    return types
"""),
("""    jacobian = np.zeros_like(data)
    for f in range(data.shape[1]):
        data_plus = copy.deepcopy(data)
        data_plus[:, f] += eps
        jacobian[:, f] = (model(data_plus) - model(data)) / eps
    return jacobian""","""    nof_features = data.shape[1]
    base = model(data)
    columns = []
    for f in range(nof_features):
        step = np.zeros_like(data)
        step[:, f] = eps
        columns.append((model(data + step) - base) / eps)
    return np.stack(columns, axis=1).astype(data.dtype)"""),
])
sub('bin_splitting.py',[
("""        xs = self.data[:, self.feature]
        before_stop = xs <= stop if stop >= self.xs_max else xs < stop
        return np.logical_and(start <= xs, before_stop)
""","""        xs = self.data[:, self.feature]
        inside = (xs >= start) & (xs < stop)
        if not stop < self.xs_max:
            inside |= (xs >= start) & (xs == stop)
        return inside
"""),
("""            discount_for_more_points = 1 - discount * (data_effect.size / nof_points)
            cost = np.var(data_effect) * (stop - start) * discount_for_more_points
""","""            share = data_effect.size / nof_points
            variance = np.mean((data_effect - np.mean(data_effect)) ** 2)
            cost = (stop - start) * variance * (1 - share * discount)
"""),
("""        return np.sum(self._points_in_bin(start, stop)) >= min_points
        
""","""        return int(np.count_nonzero(self._points_in_bin(start, stop))) >= min_points

"""),
("""            uniq = np.sort(np.unique(self.data[:, self.feature]))
            dx = [uniq[i + 1] - uniq[i] for i in range(len(uniq) - 1)]
            lims = np.array([uniq[0] - dx[0] / 2] + [uniq[i] + dx[i] / 2 for i in range(len(uniq) - 1)] + [uniq[-1] + dx[-1] / 2])
""","""            uniq = np.unique(self.data[:, self.feature])
            half = np.diff(uniq) / 2
            lims = np.concatenate([[uniq[0] - half[0]], uniq[:-1] + half, [uniq[-1] + half[-1]]])
"""),
("""                        if bin_1_loss == 0.0 and bin_2_loss > 0:
                            close_bin = True
                        # if both zero, keep it (we could close as well)
                        elif bin_1_loss == 0.0 and bin_2_loss == 0:
                            close_bin = False
                        # if both positive, compare and decide
                        else:
                            close_bin = False if bin_2_loss <= bin_1_loss else True
""","""                        close_bin = not (bin_2_loss <= bin_1_loss)
"""),
("""            for bin_index in range(1, max_nof_bins):
                for lim_index_next in range(max_nof_bins + 1):
                    # find best solution
                    tmp = []
                    for lim_index_before in range(max_nof_bins + 1):
                        tmp.append(
                            matrix[lim_index_before, bin_index - 1]
                            + self._cost_of_move(
                                lim_index_before, lim_index_next, max_nof_bins, discount
                            )
                        )
                    # store best solution
                    matrix[lim_index_next, bin_index] = np.min(tmp)
                    argmatrix[lim_index_next, bin_index] = np.argmin(tmp)
""","""            # the cost of all moves
            moves = np.array(
                [
                    [self._cost_of_move(before, after, max_nof_bins, discount) for after in range(nof_limits)]
                    for before in range(nof_limits)
                ]
            )
            for bin_index in range(1, max_nof_bins):
                total = matrix[:, bin_index - 1][:, np.newaxis] + moves
                matrix[:, bin_index] = total.min(axis=0)
                argmatrix[:, bin_index] = total.argmin(axis=0)
"""),
])
