exec(open('/tmp/rf/rflib.py').read())
sub('partitioning.py',[
("""                heter_drop = np.array(
                    self.flatten_list(
                        [
                            [
                                heter_bef - sub_heter[int(2 * i)],
                                heter_bef - sub_heter[int(2 * i + 1)],
                            ]
                            for i, heter_bef in enumerate(heter_before)
                        ]
                    )
                )
""","""                heter_drop = np.repeat(heter_before, 2) - np.array(sub_heter)
"""),
("""                populations = np.array([len(xx) for xx in x_list_2])
                # weights analogous to the populations in each split
                weights = (populations + 1) / (np.sum(populations + 1))
""","""                sizes = np.array([xx.shape[0] + 1 for xx in x_list_2])
                weights = sizes / sizes.sum()
"""),
("""                weighted_heter_drop[i, j] = np.sum(heter_drop * weights)
""","""                weighted_heter_drop[i, j] = np.dot(weights, heter_drop)
"""),
("""                weighted_heter[i, j] = np.sum(weights * np.array(sub_heter))
""","""                weighted_heter[i, j] = np.dot(weights, sub_heter)
"""),
("""        if x_jac_list is None:
            sub_heter = [heter_func(x) for x in x_list_2]
        else:
            x_jac_list_2 = self.flatten_list(
                [
                    self.split_dataset(x, x_jac, foc[i], position, foc_types[i])
                    for x, x_jac in zip(x_list, x_jac_list)
                ]
            )
            sub_heter = [
                heter_func(x, x_jac) for x, x_jac in zip(x_list_2, x_jac_list_2)
            ]
""","""        sub_heter = self._heterogeneities(x_list, x_jac_list, x_list_2, foc[i], position, foc_types[i])
"""),
("""    def choose_important_splits(self):
""","""    def _heterogeneities(self, x_list, x_jac_list, parts, feature, position, kind):
        if x_jac_list is None:
            return [self.heter_func(part) for part in parts]
        effects = []
        for x, x_jac in zip(x_list, x_jac_list):
            effects.extend(self.split_dataset(x, x_jac, feature, position, kind))
        return [self.heter_func(part, effect) for part, effect in zip(parts, effects)]

    def choose_important_splits(self):
"""),
("""            if np.sum(split_valid) == 0:
                optimal_splits = {}
            # if all are positive, return all
            elif np.sum(split_valid) == len(split_valid):
                optimal_splits = splits[1:]
            else:
                # find first negative split
                first_negative = np.where(split_valid == False)[0][0]
                # if first negative is the first split, return nothing
                if first_negative == 0:
                    optimal_splits = {}
                else:
                    optimal_splits = splits[1 : first_negative + 1]
""","""            optimal_splits = list(
                itertools.takewhile(lambda split: split_valid[splits.index(split) - 1], [])
            )
            for valid, split in zip(split_valid, splits[1:]):
                if not valid:
                    break
                optimal_splits.append(split)
"""),
("""        if feat_type == "cat":
            ind_1 = x[:, feature] == position
            ind_2 = x[:, feature] != position
        else:
            ind_1 = x[:, feature] <= position
            ind_2 = x[:, feature] > position
        if x_jac is None:
            X1 = x[ind_1, :]
            X2 = x[ind_2, :]
        else:
            X1 = x_jac[ind_1, :]
            X2 = x_jac[ind_2, :]
        return X1, X2
""","""        values = x[:, feature]
        first = values == position if feat_type == "cat" else values <= position
        source = x if x_jac is None else x_jac
        return source[first], source[~first]
"""),
("""        return [item for sublist in l for item in sublist]
""","""        return list(itertools.chain.from_iterable(l))
"""),
("""        step = (np.max(x[:, feature]) - np.min(x[:, feature])) / nof_splits
        return np.min(x[:, feature]) + (np.arange(nof_splits) + 0.5) * step
""","""        low, high = np.min(x[:, feature]), np.max(x[:, feature])
        step = (high - low) / nof_splits
        return np.array([low + (k + 0.5) * step for k in range(nof_splits)])
"""),
("""                if j % 2 == 0:
                    if split["type"] == "cat":
                        name = foc_name + " == {}".format(pos_small)
                        comparison = "=="
                    else:
                        name = foc_name + " <= {}".format(pos_small)
                        comparison = "<="
                else:
                    if split["type"] == "cat":
                        name = foc_name + " != {}".format(pos_small)
                        comparison = "!="
                    else:
                        name = foc_name + "  > {}".format(pos_small)
                        comparison = ">"
""","""                symbols = ("==", "!=") if split["type"] == "cat" else ("<=", ">")
                comparison = symbols[j % 2]
                name = foc_name + " {} {}".format(comparison.rjust(2), pos_small)
"""),
("""        node = None
        for node_i in self.nodes:
            if node_i.name == name:
                node = node_i
                break
        return node
""","""        return next((node for node in self.nodes if node.name == name), None)
"""),
("""        children = []
        for node_i in self.nodes:
            if node_i.parent_node is not None:
                if node_i.parent_node.name == name:
                    children.append(node_i)
        return children
""","""        with_parent = [node for node in self.nodes if node.parent_node is not None]
        return [node for node in with_parent if node.parent_node.name == name]
"""),
("""        w_heter = 0
        for nod in level_nodes:
            w_heter += nod.data["heterogeneity"] * nod.data["weight"]
        return {"heterogeneity": w_heter}
""","""        return {"heterogeneity": sum(nod.heterogeneity * nod.weight for nod in level_nodes)}
"""),
("""                        if b == 0:
                            if feat_splits[jj]["type"] == "cat":
                                init_col_mask = np.logical_and(
                                    init_col_mask,
                                    X[:, feat_splits[jj]["feature"]]
                                    == feat_splits[jj]["position"],
                                )
                                # add with two decimals
                                new_name += "x{}={:.2f} & ".format(
                                    feat_splits[jj]["feature"],
                                    feat_splits[jj]["position"],
                                )
                            else:
                                init_col_mask = np.logical_and(
                                    init_col_mask,
                                    X[:, feat_splits[jj]["feature"]]
                                    <= feat_splits[jj]["position"],
                                )
                                new_name += "x{}<={:.2f} & ".format(
                                    feat_splits[jj]["feature"],
                                    feat_splits[jj]["position"],
                                )
                        else:
                            if feat_splits[jj]["type"] == "cat":
                                init_col_mask = np.logical_and(
                                    init_col_mask,
                                    X[:, feat_splits[jj]["feature"]]
                                    != feat_splits[jj]["position"],
                                )
                                new_name += "x{}!={:.2f} & ".format(
                                    feat_splits[jj]["feature"],
                                    feat_splits[jj]["position"],
                                )
                            else:
                                init_col_mask = np.logical_and(
                                    init_col_mask,
                                    X[:, feat_splits[jj]["feature"]]
                                    > feat_splits[jj]["position"],
                                )
                                new_name += "x{}>{:.2f} & ".format(
                                    feat_splits[jj]["feature"],
                                    feat_splits[jj]["position"],
                                )
""","""                        split = feat_splits[jj]
                        values, position = X[:, split["feature"]], split["position"]
                        categorical = split["type"] == "cat"
                        inside = values == position if categorical else values <= position
                        if b == 1:
                            inside = ~inside
                        symbol = (("=", "!=") if categorical else ("<=", ">"))[b]
                        init_col_mask = init_col_mask.astype(bool) & inside
                        new_name += "x{}{}{:.2f} & ".format(split["feature"], symbol, position)
"""),
])
