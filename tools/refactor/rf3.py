exec(open('/tmp/rf/rflib.py').read())
sub('global_effect_pdp.py',[
("""        method = pdp_1d_vectorized if use_vectorized else pdp_1d_non_vectorized
        if self.method_name == "pdp":
            y = method(
                self.model, data, xx, feature, False, False, True
            )
        else:
            if self.model_jac is not None:
                y = method(self.model_jac, data, xx, feature, False, True, True)
            else:
                y = method(self.model, data, xx, feature, False, False, True, True)
        return y
""","""        method = pdp_1d_vectorized if use_vectorized else pdp_1d_non_vectorized
        derivative = self.method_name != "pdp"
        use_jacobian = derivative and self.model_jac is not None
        return method(
            self.model_jac if use_jacobian else self.model,
            data,
            xx,
            feature,
            heterogeneity=False,
            model_returns_jac=use_jacobian,
            return_all=True,
            ask_for_derivatives=derivative and not use_jacobian,
        )

    def _centering_positions(self, data, feature, centering, points_for_centering):
        limits = self.axis_limits[:, feature]
        if centering == "zero_start":
            return limits[:1]
        if points_for_centering == "all":
            return data[:, feature]
        return np.linspace(limits[0], limits[1], points_for_centering)
"""),
("""        if centering is True or centering == "zero_integral":
            if points_for_centering == "all":
                xx = data[:, feature]
            else:
                xx = np.linspace(
                    self.axis_limits[0, feature],
                    self.axis_limits[1, feature],
                    points_for_centering,
                )
            y = self._predict(data, xx, feature, use_vectorized)
            norm_const = np.mean(y, axis=0)
            fe = {"norm_const": norm_const}
        elif centering == "zero_start":
            xx = self.axis_limits[0, feature, np.newaxis]
            y = self._predict(data, xx, feature, use_vectorized)
            fe = {"norm_const": y[0]}
        else:
            fe = {"norm_const": helpers.EMPTY_SYMBOL}
        return fe
""","""        if centering is False:
            return {"norm_const": helpers.EMPTY_SYMBOL}
        xx = self._centering_positions(data, feature, centering, points_for_centering)
        return {"norm_const": self._predict(data, xx, feature, use_vectorized).mean(axis=0)}
"""),
("""        y_pdp = np.mean(yy, axis=1)
        if return_all:
            return yy
        if heterogeneity:
            std = np.std(yy, axis=1)
            return y_pdp, std
        else:
            return y_pdp
""","""        if return_all:
            return yy
        nof_curves = yy.shape[1]
        y_pdp = np.sum(yy, axis=1) / nof_curves
        if not heterogeneity:
            return y_pdp
        residuals = yy - y_pdp[:, np.newaxis]
        return y_pdp, np.sqrt(np.sum(residuals**2, axis=1) / nof_curves)
"""),
("""    nof_instances = x.shape[0]
    y_list = []
    if ask_for_derivatives and not model_returns_jac:
        for k in range(nof_instances):
            x_new = copy.deepcopy(data)
            x_new[:, feature] = x[k] + 1e-6
            y_1 = model(x_new)
            x_new = copy.deepcopy(data)
            x_new[:, feature] = x[k] - 1e-6
            y_2 = model(x_new)
            y = (y_1 - y_2) / (2 * 1e-6)
            y_list.append(y)
        y = np.array(y_list)
    else:
        for k in range(nof_instances):
            x_new = copy.deepcopy(data)
            x_new[:, feature] = x[k]
            y = model(x_new)[:, feature] if model_returns_jac else model(x_new)
            y_list.append(y)
        y = np.array(y_list)
""","""    def outputs_at(position):
        x_new = np.array(data)
        x_new[:, feature] = position
        output = model(x_new)
        return output[:, feature] if model_returns_jac else output

    step = 1e-6
    if ask_for_derivatives and not model_returns_jac:
        y = np.array([(outputs_at(v + step) - outputs_at(v - step)) / (2 * step) for v in x])
    else:
        y = np.array([outputs_at(v) for v in x])
"""),
("""    x_new = copy.deepcopy(data)
    x_new = np.expand_dims(x_new, axis=0)
    x_new = np.repeat(x_new, x.shape[0], axis=0)
    if ask_for_derivatives and not model_returns_jac:
        x_new_1 = copy.deepcopy(x_new)
        x_new_1[:, :, feature] = np.expand_dims(x, axis=-1) + 1e-6
        x_new_1 = np.reshape(
            x_new_1, (x_new_1.shape[0] * x_new_1.shape[1], x_new_1.shape[2])
        )
        x_new_2 = copy.deepcopy(x_new)
        x_new_2[:, :, feature] = np.expand_dims(x, axis=-1) - 1e-6
        x_new_2 = np.reshape(
            x_new_2, (x_new_2.shape[0] * x_new_2.shape[1], x_new_2.shape[2])
        )
        y_1 = model(x_new_1)
        y_2 = model(x_new_2)
        y = (y_1 - y_2) / (2 * 1e-6)
        y = np.reshape(y, (x.shape[0], nof_instances))
    else:
        x_new[:, :, feature] = np.expand_dims(x, axis=-1)
        x_new = np.reshape(x_new, (x_new.shape[0] * x_new.shape[1], x_new.shape[2]))
        y = model(x_new)[:, feature] if model_returns_jac else model(x_new)
        y = np.reshape(y, (x.shape[0], nof_instances))
""","""    nof_positions = x.shape[0]

    def outputs_at(positions):
        stacked = np.tile(data, (nof_positions, 1))
        stacked[:, feature] = np.repeat(positions, nof_instances)
        output = model(stacked)
        if model_returns_jac:
            output = output[:, feature]
        return np.reshape(output, (nof_positions, nof_instances))

    step = 1e-6
    if ask_for_derivatives and not model_returns_jac:
        y = (outputs_at(x + step) - outputs_at(x - step)) / (2 * step)
    else:
        y = outputs_at(x)
"""),
("""    for j in range(len(features)):
        x_new[:, :, features[j]] = np.expand_dims(x[:, j], axis=-1)
""","""    x_new[:, :, list(features)] = x[:, np.newaxis, :]
"""),
])
sub('global_effect_shap.py',[
("""        yy = self.feature_effect["feature_" + str(feature)]["spline_mean"](xs)
        if centering is not False:
            norm_const = self.feature_effect["feature_" + str(feature)]["norm_const"]
            yy = yy - norm_const
        if heterogeneity:
            yy_std = self.feature_effect["feature_" + str(feature)]["spline_std"](xs)
            return yy, yy_std
        else:
            return yy
""","""        effect = self.feature_effect["feature_" + str(feature)]
        shift = effect["norm_const"] if centering is not False else 0.0
        yy = effect["spline_mean"](xs) - shift
        return (yy, effect["spline_std"](xs)) if heterogeneity else yy
"""),
("""            norm_const = np.trapz(y_norm, x_norm) / (x_norm[-1] - x_norm[0])
""","""            widths = np.diff(x_norm)
            heights = 0.5 * (y_norm[1:] + y_norm[:-1])
            norm_const = np.sum(widths * heights) / (x_norm[-1] - x_norm[0])
"""),
])
sub('helpers.py',[
("""    D = data.shape[1]
    axis_limits = np.zeros([2, D])
    for d in range(D):
        axis_limits[0, d] = data[:, d].min()
        axis_limits[1, d] = data[:, d].max()
    return axis_limits
""","""    return np.stack([data.min(axis=0), data.max(axis=0)]).astype(float)
"""),
("""    avg_output = avg_output if avg_output is not None else np.mean(model(data))
    avg_output = avg_output * scale_y["std"] + scale_y["mean"] if scale_y is not None else avg_output
    return avg_output
""","""    if avg_output is None:
        avg_output = np.mean(model(data))
    if scale_y is None:
        return avg_output
    return scale_y["mean"] + scale_y["std"] * avg_output
"""),
("""    data = data[data[:, feature] >= axis_limits[0, feature]]
    data = data[data[:, feature] <= axis_limits[1, feature]]
""","""    low, high = axis_limits[:, feature]
    data = data[np.logical_and(low <= data[:, feature], data[:, feature] <= high)]
"""),
])
