"""Behaviour-preserving rewrites of the library on which every check must stay quiet
(tools/refac.py applies them to a scratch copy)."""
R = []


def refac(id, *edits):
    R.append((id, edits))


refac("prob-forward",
 ("prob_mps.py", '''            # Contract inputs with core tensors
            mat_slices = get_mat_slices(input_data, core_tensors)

            #  Contract all bond dims to get (unnormalized) prob amplitudes
            psi_vals, log_scales = contract_matseq(
                mat_slices,
                self.edge_vecs[0],
                self.edge_vecs[1],
                parallel_eval,
                log_format=True,
            )

        # Get log normalization and check for infinities
        log_norm = self.log_norm()
        assert log_norm.isfinite()
        assert torch.all(psi_vals.isfinite())

        # Compute unnormalized log probabilities
        log_uprobs = torch.log(torch.abs(psi_vals)) + log_scales

        # Return normalized probabilities
        return 2 * log_uprobs - log_norm
''', '''            left, right = self.edge_vecs.unbind()
            psi_vals, log_scales = contract_matseq(
                get_mat_slices(input_data, core_tensors),
                left_vec=left,
                right_vec=right,
                parallel_eval=parallel_eval,
                log_format=True,
            )
        return self._normalized(psi_vals, log_scales, self.log_norm())

    @staticmethod
    def _normalized(psi_vals, log_scales, log_norm):
        if not bool(torch.isfinite(log_norm)) or not bool(torch.isfinite(psi_vals).all()):
            raise AssertionError
        log_sq = psi_vals.abs().log() * 2
        return log_sq + 2 * log_scales - log_norm
'''))

refac("slim-eval",
 ("mps_base.py", '''    log_scale = torch.zeros(batch)
    vecs = bound_vecs[0].expand(batch, 1, bond_dim)
    for inps, core in zip(seq_input, all_cores):
        mats = slice_fun(inps, core)
        vecs = torch.matmul(vecs, mats)

        # Rescale vectors, update log_scale
        rescale = nonzero_scale(vecs.abs().sum(dim=-1, keepdim=True) / bond_dim)
        log_scale = log_scale + rescale.log()[:, 0, 0]
        vecs = vecs / rescale

    # Contract with the right boundary vector, return result
    contraction = torch.matmul(vecs.squeeze(dim=1), bound_vecs[1][:, None])
    assert contraction.shape == (batch, 1)
    return contraction.squeeze(dim=1), log_scale
''', '''    scales = []
    vecs = bound_vecs[0].expand(batch, bond_dim)
    cores = iter(all_cores)
    for t in range(seq_len):
        vecs = torch.einsum("bd,bde->be", vecs, slice_fun(seq_input[t], next(cores)))
        rescale = nonzero_scale(vecs.abs().amax(dim=-1))
        scales.append(rescale.log())
        vecs = vecs / rescale[:, None]
    log_scale = torch.stack(scales).sum(dim=0) if scales else torch.zeros(batch)

    # Contract with the right boundary vector, return result
    contraction = (vecs * bound_vecs[1]).sum(dim=-1)
    assert contraction.shape == (batch,)
    return contraction, log_scale
'''))

refac("reduce-par",
 ("mps_base.py", '''    while n_mats > 1:
        half_n = n_mats // 2
        floor_n = half_n * 2

        # Split matrices up into even and odd numbers (maybe w/ leftover)
        even_mats = matrices[..., 0:floor_n:2, :, :]
        odd_mats = matrices[..., 1:floor_n:2, :, :]
        leftover = matrices[..., floor_n:, :, :]

        # Batch multiply everything, append remainder
        matrices = even_mats @ odd_mats
        matrices = torch.cat((matrices, leftover), dim=s_dim)
        n_mats = matrices.shape[s_dim]

        # Rescale matrices and update log_scale
        rescales = matrices.abs().sum(dim=(-2, -1), keepdim=True) / bond_dim
        rescales = nonzero_scale(rescales)
        log_scale = log_scale + rescales.log().sum(dim=-3)
        matrices = matrices / rescales
''', '''    while n_mats > 1:
        # The first matrix waits for the next round if their number is odd
        odd = n_mats % 2
        rest = matrices[..., odd:, :, :]
        pairs = rest[..., ::2, :, :] @ rest[..., 1::2, :, :]
        matrices = torch.cat((matrices[..., :odd, :, :], pairs), dim=s_dim)
        n_mats = odd + (n_mats - odd) // 2

        # Rescale matrices and update log_scale
        rescales = nonzero_scale(matrices.abs().amax(dim=(-2, -1), keepdim=True))
        matrices = matrices / rescales
        log_scale = rescales.log().sum(dim=-3) + log_scale
'''))

refac("reduce-seq",
 ("mps_base.py", '''    product, matrices = matrices[0], matrices[1:]
    log_scale = torch.zeros(product.shape[:-2])[..., None, None]
    for mat in matrices:
        product = torch.matmul(product, mat)

        # Rescale and update the log scale factor
        target_norm = sqrt(product.shape[-2] * product.shape[-1])
        rescale = product.abs().sum(dim=(-2, -1), keepdim=True) / target_norm
        rescale = nonzero_scale(rescale)
        log_scale = log_scale + torch.log(rescale)
        product = product / rescale
''', '''    product = matrices[0]
    log_scale = torch.zeros(product.shape[:-2] + (1, 1))
    for i in range(1, len(matrices)):
        product = product @ matrices[i]
        rescale = product.abs().mean(dim=(-2, -1), keepdim=True)
        rescale = nonzero_scale(rescale.detach())
        product = product / rescale
        log_scale = torch.log(rescale) + log_scale
'''))

refac("mat-slices",
 ("mps_base.py", '''        # Indexing equivalent of the einsum operation at bottom
        mat_slices = CIndex(core_tensor)[torch.arange(seq_len)[None], seq_input]
        # mat_slices = core_tensor[torch.arange(seq_len)[None], seq_input]
    elif not indexing and uniform:
        mat_slices = einsum("bti,ide->btde", seq_input, core_tensor)
    elif not indexing and not uniform:
        mat_slices = einsum("bti,tide->btde", seq_input, core_tensor)
''', '''        sites = torch.arange(seq_len).expand(seq_input.shape)
        mat_slices = core_tensor[sites, seq_input]
    elif uniform:
        mat_slices = torch.tensordot(seq_input, core_tensor, dims=1)
    else:
        inps, cores = seq_input.transpose(0, 1), core_tensor.flatten(2)
        mat_slices = torch.matmul(inps, cores).transpose(0, 1)
        mat_slices = mat_slices.reshape(mat_slices.shape[:2] + core_tensor.shape[2:])
'''))

refac("log-norm-matmul",
 ("mps_base.py", '''    if lamb_mat is None:
        # In the following, "dm" = "density matrix", "ct" = "core tensor"
        t_op = lambda dm, ct: einsum("ilr,lp,ipq->rq", ct, dm, ct.conj())
    elif lamb_mat.ndim == 0:
        t_op = lambda dm, ct: lamb_mat * einsum("ilr,lp,ipq->rq", ct, dm, ct.conj())
    elif lamb_mat.ndim == 1:
        t_op = lambda dm, ct: einsum("i,ilr,lp,ipq->rq", lamb_mat, ct, dm, ct.conj())
    elif lamb_mat.ndim == 2:
        t_op = lambda dm, ct: einsum("ij,ilr,lp,jpq->rq", lamb_mat, ct, dm, ct.conj())
''', '''    def weighted(ct):
        # Core tensor with the lambda matrix applied to its input index
        if lamb_mat is None:
            return ct
        elif lamb_mat.ndim == 0:
            return lamb_mat * ct
        elif lamb_mat.ndim == 1:
            return lamb_mat[:, None, None] * ct
        return torch.tensordot(lamb_mat.t(), ct, dims=1)

    def t_op(dm, ct):
        half = weighted(ct).transpose(1, 2) @ dm
        return (half @ ct.conj()).sum(dim=0)
'''),
 ("mps_base.py", '''        trace = hermitian_trace(d_mat)
        l_norm = l_norm + torch.log(trace)
        d_mat = d_mat / trace
''', '''        trace = hermitian_trace(d_mat)
        d_mat = d_mat / trace
        l_norm = torch.log(trace) + l_norm
'''))

refac("log-norm-scales",
 ("mps_base.py", '''    left_vec, r_vec = boundary_vecs / scales
    dens_mat = left_vec[:, None] @ left_vec[None, :].conj()
    log_norm = 2 * torch.log(scales).sum()
''', '''    boundary_vecs = boundary_vecs / scales
    left_vec, r_vec = boundary_vecs[0], boundary_vecs[1]
    dens_mat = torch.outer(left_vec, left_vec.conj())
    log_norm = torch.log(scales).sum() * 2
'''),
 ("mps_base.py", '''        for core in core_tensor:
            dens_mat, log_norm = transfer_op(core, dens_mat, log_norm)

        correction = einsum("r,rq,q->", r_vec, dens_mat, r_vec.conj())
''', '''        state = (dens_mat, log_norm)
        for core in core_tensor:
            state = transfer_op(core, *state)
        dens_mat, log_norm = state

        correction = (r_vec @ dens_mat) @ r_vec.conj()
'''))

refac("region-reduce",
 ("contractables.py", '''        while size > 1:
            odd_size = size % 2 == 1
            half_size = size // 2
            nice_size = 2 * half_size

            even_mats = mats[:, 0:nice_size:2]
            odd_mats = mats[:, 1:nice_size:2]
            # For odd sizes, set aside one batch of matrices for the next round
            leftover = mats[:, nice_size:]

            # Multiply together all pairs of matrices (except leftovers)
            mats = torch.einsum("bslu,bsur->bslr", [even_mats, odd_mats])
            mats = torch.cat([mats, leftover], 1)

            size = half_size + int(odd_size)

        # Since we only have a single matrix, wrap it as a SingleMat
        return SingleMat(mats.squeeze(1))
''', '''        while mats.size(1) > 1:
            first = mats.size(1) % 2
            pairs = torch.matmul(mats[:, first::2], mats[:, first + 1 :: 2])
            mats = torch.cat([mats[:, :first], pairs], dim=1)

        # Since we only have a single matrix, wrap it as a SingleMat
        return SingleMat(mats[:, 0])
'''))

refac("region-mul",
 ("contractables.py", '''        for i, mat in enumerate(mat_list[:: (1 if rmul else -1)], 1):
            if rmul:
                vec = torch.bmm(vec, mat)
            else:
                vec = torch.bmm(mat, vec)
''', '''        if rmul:
            for mat in mat_list:
                vec = vec @ mat
        else:
            for mat in reversed(mat_list):
                vec = mat @ vec
'''),
 ("contractables.py", '''        left_vec = self.tensor.unsqueeze(1)
        right_vec = right_vec.tensor.unsqueeze(2)
        batch_size = left_vec.size(0)

        # Do the batch inner product
        scalar = torch.bmm(left_vec, right_vec).view([batch_size])
''', '''        # Do the batch inner product
        scalar = (self.tensor * right_vec.tensor).sum(dim=1)
'''))

refac("list-reduce",
 ("contractables.py", '''        # If we encounter an unsupported operation, then try multiplying from
        # the left end of the list instead
        while len(c_list) > 1:
            try:
                c_list[-2] = c_list[-2] * c_list[-1]
                del c_list[-1]
            except TypeError:
                c_list[1] = c_list[0] * c_list[1]
                del c_list[0]

        return c_list[0]
''', '''        # If we encounter an unsupported operation, then try multiplying from
        # the left end of the list instead
        while len(c_list) != 1:
            try:
                product = c_list[-2] * c_list[-1]
                c_list[-2:] = [product]
            except TypeError:
                product = c_list[0] * c_list[1]
                c_list[:2] = [product]

        return c_list.pop()
'''))

refac("core-mul",
 ("contractables.py", '''        # Build bond string of ouput tensor
        out_str = ["b"]
        for bs in bond_strs:
            out_str.extend([c for c in bs if c not in specials])
        out_str.append("l" if "l" in bond_strs[0] else "")
        out_str.append("r" if "r" in bond_strs[1] else "")

        # Build the einsum string for this operation
        bond_strs = ["".join(bs) for bs in bond_strs]
        out_str = "".join(out_str)
        ein_str = f"{bond_strs[0]},{bond_strs[1]}->{out_str}"

        # Contract along the linear dimension to get an output tensor
        out_tensor = torch.einsum(ein_str, [tensors[0], tensors[1]])
''', '''        # Build bond string of ouput tensor
        left, right = bond_strs
        free = [c for c in left + right if c not in specials]
        out_str = "b" + "".join(free)
        if "l" in left:
            out_str += "l"
        if "r" in right:
            out_str += "r"

        # Contract along the linear dimension to get an output tensor
        ein_str = "".join(left) + "," + "".join(right) + "->" + out_str
        out_tensor = torch.einsum(ein_str, *tensors)
'''))

refac("mps-forward",
 ("torchmps.py", '''            path_inputs = []
            for site_num in self.path:
                path_inputs.append(input_data[:, site_num])
            input_data = torch.stack(path_inputs, dim=1)
''', '''            input_data = input_data[:, torch.as_tensor(self.path)]
'''),
 ("torchmps.py", '''            embedded_data = torch.stack([input_data, 1 - input_data], dim=2)

        return embedded_data
''', '''            ones = torch.ones_like(input_data)
            embedded_data = torch.cat(
                [input_data[..., None], (ones - input_data)[..., None]], dim=-1
            )

        return embedded_data
'''))

refac("region-forward",
 ("torchmps.py", '''        mats = torch.einsum("slri,bsi->bslr", [tensor, input_data])

        # If we're using bias matrices, add those here
        if self.use_bias:
            bias_mat = self.bias_mat.unsqueeze(0)
            mats = mats + bias_mat.expand_as(mats)
''', '''        sites = []
        for core, inp in zip(tensor, input_data.unbind(1)):
            sites.append(torch.einsum("lri,bi->blr", core, inp))
        if sites:
            mats = torch.stack(sites, dim=1)
        else:
            mats = tensor.new_zeros((len(input_data), 0) + tuple(tensor.shape[1:3]))

        # If we're using bias matrices, add those here
        if self.use_bias:
            mats = mats + self.bias_mat
'''),
 ("torchmps.py", '''        tensor = torch.einsum("slrij,bsj->bslri", [tensor, inputs[1]])
        mats = torch.einsum("bslri,bsi->bslr", [tensor, inputs[0]])
''', '''        mats = torch.einsum("slrij,bsi,bsj->bslr", tensor, inputs[0], inputs[1])
'''))

refac("linear-region",
 ("torchmps.py", '''            end_vecs = [
                torch.zeros(dim, dtype=item.tensor.dtype).to(device)
                for (dim, item) in zip(bond_dims, end_items)
            ]

            for vec in end_vecs:
                vec[0] = 1
            contractable_list.insert(0, EdgeVec(end_vecs[0], is_left_vec=True))
            contractable_list.append(EdgeVec(end_vecs[1], is_left_vec=False))

            # Multiply together everything in contractable_list
            contractable_list = ContractableList(contractable_list)
''', '''            end_vecs = []
            for dim, item in zip(bond_dims, end_items):
                end_vecs.append(torch.eye(dim, dtype=item.tensor.dtype)[0].to(device))
            left = EdgeVec(end_vecs[0], is_left_vec=True)
            right = EdgeVec(end_vecs[1], is_left_vec=False)

            # Multiply together everything in contractable_list
            contractable_list = ContractableList([left] + contractable_list + [right])
'''),
 ("torchmps.py", '''            in_str, out_str = "", ""
            for c in bond_str:
                if c in lin_bonds:
                    in_str += "l"
                else:
                    in_str += c
                    out_str += c
            ein_str = in_str + "->" + out_str

            # Return the trace over left and right indices
            return torch.einsum(ein_str, [tensor])
''', '''            l_ind, r_ind = bond_str.index("l"), bond_str.index("r")
            return torch.diagonal(tensor, dim1=l_ind, dim2=r_ind).sum(-1)
'''))

refac("svd",
 ("utils.py", '''        left_mat, svs, right_mat = torch.svd(tensor)
        svs, _ = torch.sort(svs, descending=True)
        right_mat = torch.t(right_mat).conj()
''', '''        left_mat, svs, right_mat = torch.linalg.svd(tensor, full_matrices=False)
        right_mat = right_mat.clone()
'''),
 ("utils.py", '''        truncation = 0
        for s in svs:
            if s < cutoff:
                break
            truncation += 1
''', '''        truncation = int((svs >= cutoff).sum())
'''))

refac("svd-helper",
 ("utils.py", '''        elif max_D and len(svs) < max_D:
            copy_svs = svs.new_zeros([max_D])
            copy_svs[: len(svs)] = svs
            copy_left = left_mat.new_zeros([left_mat.size(0), max_D])
            copy_left[:, : left_mat.size(1)] = left_mat
            copy_right = right_mat.new_zeros([max_D, right_mat.size(1)])
            copy_right[: right_mat.size(0)] = right_mat
            svs, left_mat, right_mat = copy_svs, copy_left, copy_right
''', '''        elif max_D and len(svs) < max_D:
            pad = max_D - len(svs)
            svs = torch.cat([svs, svs.new_zeros([pad])])
            left_mat = torch.cat([left_mat, left_mat.new_zeros([left_dim, pad])], 1)
            right_mat = torch.cat([right_mat, right_mat.new_zeros([pad, right_dim])])
'''),
 ("utils.py", '''        if sv_right:
            right_mat = torch.einsum("l,lr->lr", [svs.to(right_mat.dtype), right_mat])
        else:
            left_mat = torch.einsum("lr,r->lr", [left_mat, svs.to(left_mat.dtype)])

        # Reshape the matrices to make them proper tensors
        left_tensor = left_mat.view(left_shape + [max_D])
        right_tensor = right_mat.view([max_D] + right_shape)
''', '''        if sv_right:
            right_mat = svs[:, None] * right_mat
        else:
            left_mat = left_mat * svs

        # Reshape the matrices to make them proper tensors
        left_tensor = left_mat.reshape(left_shape + [max_D])
        right_tensor = right_mat.reshape([max_D] + right_shape)
'''))

refac("unmerge-scale",
 ("torchmps.py", '''        log_norms = []
        for core in unmerged_list:
            # Cores which are exactly zero aren't rescaled
            norms = [n if n > 0 else torch.ones_like(n) for n in core.get_norm()]
            log_norms.append([torch.log(norm) for norm in norms])
        log_scale = sum([sum(ns) for ns in log_norms])
        log_scale /= sum([len(ns) for ns in log_norms])

        # Now rescale all cores so that their norms are roughly equal
        scales = [[torch.exp(log_scale - n) for n in ns] for ns in log_norms]
        for core, these_scales in zip(unmerged_list, scales):
            core.rescale_norm(these_scales)
''', '''        def log_norm(norm):
            # Cores which are exactly zero aren't rescaled
            return torch.log(torch.where(norm > 0, norm, torch.ones_like(norm)))

        log_norms = [[log_norm(n) for n in core.get_norm()] for core in unmerged_list]
        log_scale = torch.stack([n for ns in log_norms for n in ns]).mean()

        # Now rescale all cores so that their norms are roughly equal
        for core, ns in zip(unmerged_list, log_norms):
            core.rescale_norm([torch.exp(log_scale - n) for n in ns])
'''),
 ("torchmps.py", '''                bond_list, sv_list = self._unmerge(cutoff=self.cutoff)
                self._merge(offset=(self.offset + 1) % 2)
                self.offset = (self.offset + 1) % 2
                self.input_counter -= self.merge_threshold

                # Point self.module_list to the appropriate merged module
                self.module_list = getattr(self, f"module_list_{self.offset}")
''', '''                bond_list, sv_list = self._unmerge(cutoff=self.cutoff)
                new_offset = 1 - self.offset
                self._merge(offset=new_offset)
                self.input_counter -= self.merge_threshold
                self.offset = new_offset

                # Point self.module_list to the appropriate merged module
                self.module_list = new_list
'''))

refac("format-input",
 ("torchmps.py", '''                batch_size = len(input_data)
                full_size = [batch_size, max_len, feature_dim]
                batch_input = self.core_tensor.new_zeros(full_size)

                # Copy each sequence into batch_input
                for i, seq in enumerate(input_data):
                    batch_input[i, : seq.size(0)] = seq
''', '''                rows = []
                for seq in input_data:
                    seq = seq.to(self.core_tensor.dtype)
                    pad = self.core_tensor.new_zeros([max_len - len(seq), feature_dim])
                    rows.append(torch.cat([seq, pad]))
                batch_input = torch.stack(rows)
'''),
 ("torchmps.py", '''        contractable_list = [input_region(batch_input)]

        # Prepend an EdgeVec and append an OutputMat
        contractable_list = [self.init_vector()] + contractable_list
        contractable_list.append(self.terminal_mat())
''', '''        region = input_region(batch_input)

        # Prepend an EdgeVec and append an OutputMat
        contractable_list = [self.init_vector(), region, self.terminal_mat()]
'''))

refac("embeddings",
 ("embeddings.py", '''    emb_data = []
    for s in range(emb_dim):
        comp = (
            torch.cos(data * pi / 2) ** (emb_dim - s - 1)
            * torch.sin(data * pi / 2) ** s
        )
        comp *= sqrt(comb(emb_dim - 1, s))
        emb_data.append(comp)
    emb_data = torch.stack(emb_data, dim=-1)
''', '''    angle = data * (pi / 2)
    cos, sin = angle.cos(), angle.sin()
    emb_data = torch.stack(
        [
            sqrt(comb(emb_dim - 1, j)) * cos ** (emb_dim - 1 - j) * sin ** j
            for j in range(emb_dim)
        ],
        dim=-1,
    )
'''),
 ("embeddings.py", '''    shape = tensor.shape + (emb_dim,)
    output = torch.zeros(*shape)
    output.scatter_(-1, tensor[..., None], 1)
    return output
''', '''    index = tensor.unsqueeze(-1)
    output = torch.zeros(tuple(tensor.shape) + (emb_dim,))
    return output.scatter(-1, index, 1.0)
'''))

refac("helpers",
 ("utils2.py", '''    tens_list = [
        t[(None,) * (bdims + nnb - t.ndim)] for t, nnb in zip(tens_list, num_nonbatch)
    ]
    shapes = [full_batch + t.shape[bdims:] for t in tens_list]
    out_list = tuple(safe_expand(t, shp) for t, shp in zip(tens_list, shapes))

    return out_list
''', '''    out_list = []
    for t, nnb in zip(tens_list, num_nonbatch):
        nonbatch = tuple(t.shape[t.ndim - nnb :])
        out_list.append(safe_expand(t, tuple(full_batch) + nonbatch))
    return tuple(out_list)
'''),
 ("utils2.py", '''    max_shp = max(shape_list, key=len)
    out = list(max_shp)
    for shp in shape_list:
        if shp is max_shp:
            continue
        for i, x in enumerate(shp, -len(shp)):
            if x != 1 and x != out[i]:
                if out[i] != 1:
                    raise ValueError
                out[i] = x
    return tuple(out)
''', '''    size = max(len(shp) for shp in shape_list)
    out = [1] * size
    for shp in shape_list:
        for i in range(1, len(shp) + 1):
            if shp[-i] == 1:
                continue
            if out[-i] not in (1, shp[-i]):
                raise ValueError
            out[-i] = shp[-i]
    return tuple(out)
'''))

refac("data",
 ("utils.py", '''    for i in range(1, num_patterns + 1):
        pattern = template.format(i)
        pattern = [int(s) for s in pattern]

        for j, val in enumerate(pattern):
            # Horizontal stripe pattern
            images[2 * i - 2, j, :] = val
            # Vertical stripe pattern
            images[2 * i - 1, :, j] = val

        labels[2 * i - 2] = 0
        labels[2 * i - 1] = 1
''', '''    for i in range(num_patterns):
        pattern = np.array([int(s) for s in template.format(i + 1)])
        images[2 * i] = pattern[:, None]
        images[2 * i + 1] = pattern[None, :]
        labels[2 * i : 2 * i + 2] = (0, 1)
'''),
 ("utils.py", '''    np.random.seed(0)
    np.random.shuffle(data)
    np.random.seed(0)
    np.random.shuffle(labels)

    data, labels = torch.from_numpy(data), torch.from_numpy(labels)
    if use_gpu:
''', '''    for array in (data, labels):
        np.random.seed(0)
        np.random.shuffle(array)

    data, labels = torch.from_numpy(data), torch.from_numpy(labels)
    if use_gpu:
'''),
 ("utils.py", '''    for i, label in enumerate(labels):
        label_vecs[i, label] = 1.0
''', '''    for vec, label in zip(label_vecs, labels):
        vec[label] = 1.0
'''))

refac("init",
 ("utils.py", '''        eye_tensor = torch.eye(bond_dims[0], bond_dims[1])
        if bond_str.index("r") < bond_str.index("l"):
            eye_tensor = eye_tensor.t()
        eye_tensor = eye_tensor.reshape(eye_shape)
        eye_tensor = eye_tensor.expand(expand_shape)

        tensor = torch.zeros(shape)
        tensor[[slice(dim) for dim in expand_shape]] = eye_tensor
''', '''        tensor = torch.zeros(shape)
        l_dim, r_dim = bond_str.index("l"), bond_str.index("r")
        diag = torch.diagonal(tensor, dim1=l_dim, dim2=r_dim)
        diag[..., : min(bond_dims)] = 1
'''),
 ("mps_base.py", '''    delta = noise * torch.randn(shape)
    if is_complex:
        delta = phaseify(delta)
    return eye_core + delta
''', '''    delta = torch.randn(shape) * noise
    delta = phaseify(delta) if is_complex else delta
    return delta + eye_core
'''))

refac("prob-init",
 ("prob_mps.py", '''        # Left and right vectors initialized to be identical, since it avoids
        # issues with exponentially small overlap
        rand_vec = torch.randn(bond_dim) / sqrt(bond_dim)
        edge_vecs = torch.stack((rand_vec,) * 2)
        if complex_params:
            edge_vecs = phaseify(edge_vecs)
''', '''        # Left and right vectors initialized to be identical, since it avoids
        # issues with exponentially small overlap
        edge_vecs = (torch.randn(bond_dim) / sqrt(bond_dim)).expand(2, bond_dim)
        edge_vecs = phaseify(edge_vecs) if complex_params else edge_vecs.clone()
'''),
 ("prob_mps.py", '''        # Account for bias matrices before calling log norm implementation
        if self.use_bias:
            core_tensors = self.core_tensors + self.bias_mat[None, None]
        else:
            core_tensors = self.core_tensors

        # Account for non-trivial lambda function in the embedding
        lamb_mat = None if self.embedding is None else self.embedding.lamb_mat

        return get_log_norm(core_tensors, self.edge_vecs, lamb_mat=lamb_mat)
''', '''        return get_log_norm(
            self._biased_cores(), self.edge_vecs, lamb_mat=self._lambda()
        )

    def _biased_cores(self):
        """
        Core tensors including the bias matrix, if there is one
        """
        return self.core_tensors + self.bias_mat if self.use_bias else self.core_tensors

    def _lambda(self):
        """
        Lambda matrix of the embedding, if there is one
        """
        return getattr(self.embedding, "lamb_mat", None)
'''),
 ("prob_mps.py", '''        if self.use_bias:
            core_tensors = self.core_tensors + self.bias_mat[None]
        else:
            core_tensors = self.core_tensors

        # Account for non-trivial lambda function in the embedding
        lamb_mat = None if self.embedding is None else self.embedding.lamb_mat

        return get_log_norm(
            core_tensors, self.edge_vecs, lamb_mat=lamb_mat, length=data_len
        )
''', '''        cores, lamb_mat = self._biased_cores(), self._lambda()
        return get_log_norm(cores, self.edge_vecs, length=data_len, lamb_mat=lamb_mat)
'''))

refac("mps-init",
 ("torchmps.py", '''        module_list = []
        init_args = {
            "bond_str": "slri",
            "shape": [label_site, bond_dim, bond_dim, feature_dim],
            "init_method": (
                "min_random_eye" if adaptive_mode else "random_zero",
                init_std,
                output_dim,
            ),
        }

        # The first input region
        if label_site > 0:
            tensor = init_tensor(**init_args)

            module_list.append(InputRegion(tensor, use_bias=use_bias, fixed_bias=False))
''', '''        module_list = []

        def input_region(num_sites):
            method = "min_random_eye" if adaptive_mode else "random_zero"
            tensor = init_tensor(
                [num_sites, bond_dim, bond_dim, feature_dim],
                "slri",
                (method, init_std, output_dim),
            )
            return InputRegion(tensor, use_bias=use_bias, fixed_bias=False)

        # The first input region
        if label_site != 0:
            module_list.append(input_region(label_site))
'''),
 ("torchmps.py", '''            init_args["shape"] = [
                input_dim - label_site,
                bond_dim,
                bond_dim,
                feature_dim,
            ]
            tensor = init_tensor(**init_args)
            module_list.append(InputRegion(tensor, use_bias=use_bias, fixed_bias=False))
''', '''            module_list.append(input_region(input_dim - label_site))
'''),
 ("torchmps.py", '''            for i, bond_dim in enumerate(new_bonds):
                if bond_dim is not None:
                    assert new_svs[i] is not None
                    self.bond_list[i] = bond_dim
                    self.sv_list[i] = new_svs[i]
''', '''            for i, (bond_dim, svs) in enumerate(zip(new_bonds, new_svs)):
                if bond_dim is None:
                    continue
                assert svs is not None
                self.sv_list[i], self.bond_list[i] = svs, bond_dim
'''))

refac("merge-loops",
 ("torchmps.py", '''            while mod_num < len(merged_list) - 1:
                left_core, right_core = merged_list[mod_num : mod_num + 2]
                new_core = self.combine(left_core, right_core, merging=True)

                # If cores aren't combinable, move our sliding window by 1
                if new_core is None or offset != site_num % 2:
                    combined_list.append(left_core)
                    mod_num += 1
                    site_num += left_core.core_len()

                # If we get something new, move to the next distinct pair
                else:
                    assert (
                        new_core.core_len()
                        == left_core.core_len() + right_core.core_len()
                    )
                    combined_list.append(new_core)
                    mod_num += 2
                    site_num += new_core.core_len()

                # Add the last core if there's nothing to merge it with
                if mod_num == len(merged_list) - 1:
                    combined_list.append(merged_list[mod_num])
                    mod_num += 1
''', '''            while mod_num < len(merged_list):
                new_core = None
                if mod_num + 1 < len(merged_list) and site_num % 2 == offset:
                    new_core = self.combine(
                        merged_list[mod_num], merged_list[mod_num + 1], merging=True
                    )

                # If cores aren't combinable, move our sliding window by 1
                mod_num += 1 if new_core is None else 2
                combined_list.append(
                    merged_list[mod_num - 1] if new_core is None else new_core
                )
                site_num += combined_list[-1].core_len()
'''),
 ("torchmps.py", '''            for i in range(len(module_list)):
                assert module_list[i].tensor.shape == merged_list[i].tensor.shape
                module_list[i].tensor[:] = merged_list[i].tensor
''', '''            for old, new in zip(module_list, merged_list):
                assert old.tensor.shape == new.tensor.shape
                old.tensor.copy_(new.tensor)
'''),
 ("torchmps.py", '''            while mod_num < len(unmerged_list) - 1:
                left_core, right_core = unmerged_list[mod_num : mod_num + 2]
                new_core = self.combine(left_core, right_core, merging=False)

                # If cores aren't combinable, move our sliding window by 1
                if new_core is None:
                    combined_list.append(left_core)
                    mod_num += 1

                # If we get something new, move to the next distinct pair
                else:
                    combined_list.append(new_core)
                    mod_num += 2

                # Add the last core if there's nothing to combine it with
                if mod_num == len(unmerged_list) - 1:
                    combined_list.append(unmerged_list[mod_num])
                    mod_num += 1
''', '''            for core in unmerged_list:
                new_core = None
                if combined_list:
                    new_core = self.combine(combined_list[-1], core, merging=False)
                if new_core is None:
                    combined_list.append(core)
                else:
                    combined_list[-1] = new_core
'''))

refac("merge-cores",
 ("torchmps.py", '''        if (offset, parity) == (1, 1):
            out_list = [self[0], self[1:]._merge(offset=0)[0]]
        elif (offset, parity) == (1, 0):
            out_list = [self[0], self[1:-1]._merge(offset=0)[0], self[-1]]
        elif (offset, parity) == (0, 1):
            out_list = [self[:-1]._merge(offset=0)[0], self[-1]]
''', '''        if offset == 1 or parity == 1:
            stop = num_sites - (offset + num_sites) % 2
            out_list = [self[0]] if offset == 1 else []
            out_list += self[offset:stop]._merge(offset=0)
            if stop < num_sites:
                out_list.append(self[-1])
'''),
 ("torchmps.py", '''        core_list, bond_list, sv_list = [], [None], [None]
        for merged_core in tensor:
            sv_vec = torch.empty(max_D, dtype=tensor.dtype)
            left_core, right_core, bond_dim = svd_flex(
                merged_core, svd_string, max_D, cutoff, sv_vec=sv_vec
            )

            core_list += [left_core, right_core]
            bond_list += [bond_dim, None]
            sv_list += [sv_vec, None]
''', '''        core_list, bond_list, sv_list = [], [None], [None]
        sv_vecs = torch.empty([len(tensor), max_D], dtype=tensor.dtype)
        for merged_core, sv_vec in zip(tensor, sv_vecs.unbind()):
            *cores, bond_dim = svd_flex(
                merged_core, svd_string, max_D=max_D, cutoff=cutoff, sv_vec=sv_vec
            )
            core_list.extend(cores)
            bond_list.extend([bond_dim, None])
            sv_list.extend([sv_vec, None])
'''),
 ("torchmps.py", '''                new_tensor = torch.einsum(
                    "lui,our->olri", [left_core.tensor, right_core.tensor]
                )
''', '''                new_tensor = torch.tensordot(
                    right_core.tensor, left_core.tensor, dims=([1], [1])
                ).permute(0, 2, 1, 3)
'''))

refac("embed-input",
 ("torchmps.py", '''            embedded_data = torch.stack(
                [torch.stack([f_map(x) for x in batch]) for batch in input_data]
            )

            # Make sure our embedded input has the desired size
            assert embedded_data.shape == torch.Size(
''', '''            rows = []
            for batch in input_data.unbind():
                rows.append(torch.stack(list(map(f_map, batch.unbind()))))
            embedded_data = torch.stack(rows)

            # Make sure our embedded input has the desired size
            assert embedded_data.shape == torch.Size(
'''),
 ("torchmps.py", '''            embedded_data = self.core_tensor.new_empty(embedded_shape)

            embedded_data[:, :, 0] = input_data
            embedded_data[:, :, 1] = 1 - input_data

        return embedded_data
''', '''            data = input_data.to(self.core_tensor.dtype)
            embedded_data = torch.stack([data, 1 - data], dim=-1)

        return embedded_data
'''),
 ("torchmps.py", '''            num_modes = len(input_data[0].shape)
            assert num_modes in [1, 2]
            assert all(
                [
                    isinstance(s, torch.Tensor) and len(s.shape) == num_modes
                    for s in input_data
                ]
            )
''', '''            for s in input_data:
                assert isinstance(s, torch.Tensor)
            num_modes = input_data[0].ndim
            assert num_modes in [1, 2] and {s.ndim for s in input_data} == {num_modes}
'''))

refac("embedding-lambda",
 ("embeddings.py", '''            # Get rank-1 matrices for each point, then numerically integrate
            emb_mats = einsum("bi,bj->bij", emb_vecs, emb_vecs.conj())
            lamb_mat = torch.trapz(emb_mats, points, dim=0)
''', '''            # Trapezoidal rule, weighting every point with its neighborhood
            steps = points[1:] - points[:-1]
            weights = torch.zeros_like(points)
            weights[1:] += steps / 2
            weights[:-1] += steps / 2
            lamb_mat = (weights[:, None] * emb_vecs).t() @ emb_vecs.conj()
'''),
 ("embeddings.py", '''            # Get rank-1 matrices for each point, then sum together
            emb_mats = einsum("bi,bj->bij", emb_vecs, emb_vecs.conj())
            lamb_mat = torch.sum(emb_mats, dim=0)
''', '''            # Sum of the rank-1 matrices for each point
            lamb_mat = emb_vecs.t() @ emb_vecs.conj()
'''),
 ("embeddings.py", '''    all_dims = [1] + list(hidden_dims) + [output_dim]

    # Create underlying MLP from list of nn Modules
    mod_list = []
    for i in range(num_layers):
        mod_list.append(nn.Linear(all_dims[i], all_dims[i + 1]))
        mod_list.append(nn.Sigmoid())  # Sigmoid avoids putting outputs to 0
''', '''    all_dims = [1, *hidden_dims, output_dim]

    # Create underlying MLP from list of nn Modules
    mod_list = []
    for in_dim, out_dim in zip(all_dims[:-1], all_dims[1:]):
        # Sigmoid avoids putting outputs to 0
        mod_list += [nn.Linear(in_dim, out_dim), nn.Sigmoid()]
'''))

refac("contractable-init",
 ("contractables.py", '''        # Expand along a new batch dimension if needed
        if ("b" not in bond_str and str_len == num_dim) or (
            "b" == bond_str[0] and str_len == num_dim + 1
        ):
            if global_bs is not None:
                tensor = tensor.unsqueeze(0).expand([global_bs] + shape)
            else:
                raise RuntimeError(
                    "No batch size given and no previous " "batch size set"
                )
            if bond_str[0] != "b":
                bond_str = "b" + bond_str
''', '''        # Expand along a new batch dimension if needed
        no_batch = "b" not in bond_str and str_len == num_dim
        missing_batch = bond_str[0] == "b" and str_len == num_dim + 1
        if no_batch or missing_batch:
            if global_bs is None:
                raise RuntimeError("No batch size given and no previous batch size set")
            tensor = tensor[None].expand(global_bs, *shape)
            bond_str = "b" + bond_str if no_batch else bond_str
'''),
 ("contractables.py", '''        output = contractable

        # Multiply by everything in ContractableList, in the correct order
        if rmul:
            for item in self.contractable_list:
                output = output * item
        else:
            for item in self.contractable_list[::-1]:
                output = item * output

        return output
''', '''        if rmul:
            return functools.reduce(operator.mul, self.contractable_list, contractable)
        output = contractable
        for item in reversed(self.contractable_list):
            output = item * output
        return output
'''),
 ("contractables.py", '''import threading
''', '''import functools
import operator
import threading
'''))

refac("script",
 ("../train_script.py", '''        # Compute the loss and accuracy, add them to the running totals
        loss = loss_fun(scores, labels)
        with torch.no_grad():
            accuracy = torch.sum(preds == labels).item() / batch_size
            running_loss += loss
            running_acc += accuracy

        # Backpropagate and update parameters
        optimizer.zero_grad()
        loss.backward()
        optimizer.step()
''', '''        # Backpropagate and update parameters
        loss = loss_fun(scores, labels)
        optimizer.zero_grad()
        loss.backward()
        optimizer.step()

        # Add loss and accuracy to the running totals
        running_loss += loss.item()
        running_acc += (preds == labels).float().mean().item()
'''),
 ("../train_script.py", '''            running_acc += torch.sum(preds == labels).item() / batch_size
''', '''            hits = scores.argmax(dim=1).eq(labels)
            running_acc += hits.sum().item() / len(labels)
'''))

refac("matseq",
 ("mps_base.py", '''        # Prepend/append boundary vectors, augmented with dummy dimensions
        if same_shape:
            matrices = [matrices[..., i, :, :] for i in range(num_mats)]
        else:
            matrices = list(matrices)
        if real_vec[0]:
            matrices = [bnd_vecs[0][..., None, :]] + matrices
        if real_vec[1]:
            matrices.append(bnd_vecs[1][..., None])
''', '''        # Prepend/append boundary vectors, augmented with dummy dimensions
        factors = [] if left_vec is None else [bnd_vecs[0].unsqueeze(-2)]
        factors.extend(matrices.unbind(-3) if same_shape else matrices)
        if right_vec is not None:
            factors.append(bnd_vecs[1].unsqueeze(-1))
        matrices = factors
'''),
 ("mps_base.py", '''    if log_format:
        return product, log_scale
    else:
        return product * torch.exp(log_scale)
''', '''    return (product, log_scale) if log_format else product * log_scale.exp()
'''))
