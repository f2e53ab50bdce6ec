exec(open('/tmp/rf/rflib.py').read())
sub('global_effect.py',[
("""        if not self.is_fitted[feature]:
            return True
        else:
            if centering is not False:
                if self.method_args["feature_" + str(feature)]["centering"] != centering:
                    return True
        return False
""","""        if not self.is_fitted[feature]:
            return True
        if centering is False:
            return False
        return self._fitted_centering(feature) != centering

    def _key(self, feature):
        return "feature_{}".format(feature)

    def _fitted_centering(self, feature):
        return self.method_args[self._key(feature)]["centering"]
"""),
("""        args = self.method_args.get("feature_" + str(feature), {})
        return {k: v for k, v in args.items() if k != "centering"}
""","""        args = dict(self.method_args.get(self._key(feature), {}))
        args.pop("centering", None)
        return args
"""),
("""        data = data[self.indices, :]
        if not np.issubdtype""","""        data = np.take(data, self.indices, axis=0)
        if not np.issubdtype"""),
])
sub('global_effect_ale.py',[
("""        def create_partial_eval(feat):
            return lambda x: self._eval_unnorm(feat, x, heterogeneity=False)

        partial_eval = create_partial_eval(feature)
        start = self.axis_limits[0, feature]
        stop = self.axis_limits[1, feature]

        if method == "zero_integral":
            z = utils_integrate.mean_1d_linspace(partial_eval, start, stop, nof_points)
        else:
            z = partial_eval(np.array([start])).item()
        return z
""","""        start, stop = self.axis_limits[:, feature]
        if method == "zero_start":
            return self._eval_unnorm(feature, np.array([start]))[0]

        grid = np.linspace(start, stop, nof_points)
        midpoints = (grid[1:] + grid[:-1]) / 2
        return np.mean(self._eval_unnorm(feature, midpoints))

    def _inside_limits(self, feature):
        values = self.data[:, feature]
        low, high = self.axis_limits[0, feature], self.axis_limits[1, feature]
        return ~((values < low) | (values > high))
"""),
("""            # compute all information required for plotting and evaluating the feature effect
            self.feature_effect["feature_" + str(s)] = self._fit_feature(
                s, binning_method
            )

            # append the "norm_const" to the feature effect if centering is not False
            if centering is not False:
                self.feature_effect["feature_" + str(s)]["norm_const"] = self._compute_norm_const(s, method=centering)
            else:
                self.feature_effect["feature_" + str(s)]["norm_const"] = self.empty_symbol
""","""            key = "feature_" + str(s)
            params = dict(self._fit_feature(s, binning_method))
            params["bin_std"] = np.sqrt(params["bin_variance"])
            params["norm_const"] = self.empty_symbol
            self.feature_effect[key] = params
            if centering is not False:
                params["norm_const"] = self._compute_norm_const(s, method=centering)
"""),
("""                bin_effect=np.sqrt(params["bin_variance"]),
""","""                bin_effect=params["bin_std"],
"""),
("""        y = (
            y - self.feature_effect["feature_" + str(feature)]["norm_const"]
            if centering
            else y
        )
        return (y, std) if heterogeneity is not False else y
""","""        if centering:
            y -= self.feature_effect["feature_" + str(feature)]["norm_const"]
        if heterogeneity is False:
            return y
        return y, std
"""),
("""        # drop points outside of limits
        ind = np.logical_and(
            self.data[:, feature] >= self.axis_limits[0, feature],
            self.data[:, feature] <= self.axis_limits[1, feature],
        )
        data = self.data[ind, :]

        # assertion
""","""        data = self.data[self._inside_limits(feature)]

        # assertion
"""),
("""        ind = np.logical_and(
            self.data[:, feature] >= self.axis_limits[0, feature],
            self.data[:, feature] <= self.axis_limits[1, feature],
        )
        data = self.data[ind, :]
        data_effect = self.data_effect[ind, :]
""","""        ind = np.flatnonzero(self._inside_limits(feature))
        data, data_effect = self.data[ind], self.data_effect[ind]
"""),
("""        if self.data_effect is None and self.model_jac is not None:
            self.data_effect = self.model_jac(self.data)
        elif self.data_effect is None and self.model_jac is None:
            self.data_effect = utils.compute_jacobian_numerically(self.model, self.data)
""","""        if self.data_effect is not None:
            return
        if self.model_jac is None:
            self.data_effect = utils.compute_jacobian_numerically(self.model, self.data)
        else:
            self.data_effect = self.model_jac(self.data)
"""),
])
