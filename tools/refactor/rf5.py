exec(open('/tmp/rf/rflib.py').read())
sub('regional_effect.py',[
("""        if scale_x_list is not None:
            tree = self.partitioners["feature_{}".format(feature)].splits_to_tree(True, scale_x_list)
        else:
            tree = self.tree_pruned["feature_{}".format(feature)]

        # assert node id exists
        assert node_idx in [node.idx for node in tree.nodes], "Node {} does not exist".format(node_idx)

        # find the node
        node = [node for node in tree.nodes if node.idx == node_idx][0]
        # get data
""","""        key = "feature_{}".format(feature)
        if scale_x_list is None:
            tree = self.tree_pruned[key]
        else:
            tree = self.regions_of[key].splits_to_tree(only_important=True, scale_x_list=scale_x_list)

        by_idx = {node.idx: node for node in tree.nodes}
        assert node_idx in by_idx, "Node {} does not exist".format(node_idx)
        node = by_idx[node_idx]
"""),
("""        self.refit(feature)
        centering = helpers.prep_centering(centering)
        data, data_effect, _ = self.get_node_info(feature, node_idx)
        fe_method = self._create_fe_object(data, data_effect, None)
        self._fit_fe_object(fe_method, feature, centering)
        return fe_method.eval(feature, xs, heterogeneity, centering)
""","""        centering = helpers.prep_centering(centering)
        fe_method = self._node_effect(feature, node_idx, centering)
        return fe_method.eval(feature, xs, heterogeneity=heterogeneity, centering=centering)

    def _node_effect(self, feature, node_idx, centering):
        # the effect of a node does not change until the feature is fitted again
        self.refit(feature)
        version, cache = self.node_effects.get(feature, (None, None))
        tree = self.tree_pruned["feature_{}".format(feature)]
        if version is not tree or cache is None:
            cache = {}
            self.node_effects[feature] = (tree, cache)
        key = (node_idx, centering)
        if key not in cache:
            data, data_effect, _ = self.get_node_info(feature, node_idx)
            fe_method = self._create_fe_object(data, data_effect, None)
            self._fit_fe_object(fe_method, feature, centering)
            cache[key] = fe_method
        return cache[key]
"""),
("""            if scale_x_list is not None:
                tree_full_scaled = self.partitioners["feature_{}".format(feat)].splits_to_tree(True, scale_x_list)
                tree_pruned_scaled = self.partitioners["feature_{}".format(feat)].splits_to_tree(False, scale_x_list)
                tree_dict = tree_full_scaled if only_important else tree_pruned_scaled
            else:
                tree_dict = self.tree_pruned["feature_{}".format(feat)] if only_important else self.tree_full["feature_{}".format(feat)]
""","""            key = "feature_{}".format(feat)
            if scale_x_list is None:
                tree_dict = (self.tree_pruned if only_important else self.tree_full)[key]
            else:
                tree_dict = self.regions_of[key].splits_to_tree(bool(only_important), scale_x_list)
"""),
("""                weight_heter_before = np.sum([node.data["weight"] * node.data["heterogeneity"] for node in previous_level_nodes])
""","""                weight_heter_before = tree.get_level_stats(level - 1)["heterogeneity"]
"""),
("""                weight_heter = np.sum([node.data["weight"] * node.data["heterogeneity"] for node in level_nodes])
""","""                weight_heter = tree.get_level_stats(level)["heterogeneity"]
"""),
])
p=root+'/effector/regional_effect.py'; s=open(p).read(); s=s.replace("self.partitioners: typing","self.node_effects: typing.Dict = {}\n        self.regions_of: typing").replace("self.partitioners[","self.regions_of["); open(p,'w').write(s)
sub('visualization.py',[
("""    x = x if scale_x is None else trans_affine(x, scale_x["mean"], scale_x["std"])
    y = y if scale_y is None else trans_affine(y, scale_y["mean"], scale_y["std"])
    std = std if scale_y is None else trans_scale(std, scale_y["std"])
    limits = (
        ale_params["limits"]
        if scale_x is None
        else trans_affine(ale_params["limits"], scale_x["mean"], scale_x["std"])
    )
    dx = (
        ale_params["dx"]
        if scale_x is None
        else trans_scale(ale_params["dx"], scale_x["std"])
    )
""","""    limits = np.array(ale_params["limits"])
    if scale_x is not None:
        limits = trans_affine(limits, scale_x["mean"], scale_x["std"])
        x = trans_affine(x, scale_x["mean"], scale_x["std"])
    dx = limits[1:] - limits[:-1]
    if scale_y is not None:
        y = trans_affine(y, scale_y["mean"], scale_y["std"])
"""),
("""    yerr = np.sqrt(bin_variance) if error else None
    ax2.bar(
        x=bin_centers,
        height=bin_effects,
        width=dx,
        color=(0.1, 0.1, 0.1, 0.1),
        edgecolor="blue",
        yerr=yerr,
        ecolor="red",
        label="dy_dx",
    )
""","""    style = dict(color=(0.1, 0.1, 0.1, 0.1), edgecolor="blue", ecolor="red", label="dy_dx")
    if error:
        style["yerr"] = np.sqrt(bin_variance)
    ax2.bar(bin_centers, bin_effects, dx, **style)
"""),
("""    if confidence_interval == "std":
        std = np.std(y_ice_outputs, axis=1)
        ax.fill_between(
            x,
            y_pdp_output - std,
            y_pdp_output + std,
            color="red",
            alpha=0.4,
            label="std",
        )
    elif confidence_interval == "std_err":
        ax.fill_between(
            x,
            y_pdp_output - std_err,
            y_pdp_output + std_err,
            color="red",
            alpha=0.4,
            label="std_err",
        )
    elif""","""    if confidence_interval in ("std", "std_err"):
        half = std_err if confidence_interval == "std_err" else np.std(y_ice_outputs, axis=1)
        lower, upper = y_pdp_output - half, y_pdp_output + half
        ax.fill_between(x, lower, upper, color="red", alpha=0.4, label=confidence_interval)
    elif"""),
("""        y_ice_outputs = y_ice_outputs if nof_ice == "all" else y_ice_outputs[:, np.random.choice(range(y_ice_outputs.shape[1]), size=nof_ice, replace=False)]
""","""        if nof_ice != "all":
            chosen = np.random.permutation(y_ice_outputs.shape[1])[:nof_ice]
            y_ice_outputs = y_ice_outputs[:, chosen]
"""),
])
sub('interaction.py',[
("""        x1 = self.data[:, feat_1]
        x2 = self.data[:, feat_2]
        pdp_1 = self._pdp_1d(feat_1, x1)
        pdp_2 = self._pdp_1d(feat_2, x2)
        pdp_12 = self._pdp_2d(feat_1, feat_2, x1, x2)
""","""        x1, x2 = self.data[:, feat_1], self.data[:, feat_2]
        pdp_1, pdp_2 = self._main_effect(feat_1), self._main_effect(feat_2)
        pdp_12 = self._pdp_2d(feat_1, feat_2, x1, x2)
"""),
("""        nom = np.mean(np.square(pdp_12 - pdp_1 - pdp_2))
        denom = np.mean(np.square(pdp_12))
""","""        residual = pdp_12 - (pdp_1 + pdp_2)
        nom = np.sum(residual**2)
        denom = np.sum(pdp_12**2)
"""),
("""        self.interaction_matrix[feat_1, feat_2] = interaction
        self.interaction_matrix[feat_2, feat_1] = interaction
        return interaction
""","""        for a, b in ((feat_1, feat_2), (feat_2, feat_1)):
            self.interaction_matrix[a, b] = interaction
        return interaction

    def _main_effect(self, feature):
        cache = self.__dict__.setdefault("main_effects", {})
        if feature not in cache:
            cache[feature] = self._pdp_1d(feature, self.data[:, feature])
        return cache[feature]
"""),
("""        yy = pdp_1d_vectorized(self.model, self.data, x, feature, heterogeneity=False, model_returns_jac=False)
""","""        yy = pdp_1d_non_vectorized(self.model, self.data, x, feature, heterogeneity=False, model_returns_jac=False)
"""),
])
