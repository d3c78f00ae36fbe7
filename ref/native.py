"""Required behaviour of the native kernels, seen through their Python wrappers
(arrays are indexed by their flattened, C-contiguous position)."""

import ctypes
import pathlib
from distutils import sysconfig

import numpy as np


def migrate(onsets, traveltimes, first_idx, last_idx, available, threads):
    onsets = np.log(np.clip(onsets, 0.01, np.inf))
    *grid_dimensions, n_luts = traveltimes.shape
    n_onsets, t_samples = onsets.shape
    n_samples = t_samples - first_idx - last_idx
    map4d = np.zeros(tuple(grid_dimensions) + (n_samples,), dtype=np.double)
    n_nodes = np.prod(grid_dimensions)
    if n_luts != n_onsets:
        raise ValueError("number of stations")
    if onsets.size < n_samples + first_idx:
        raise ValueError("size")
    for node in range(n_nodes):
        for sample in range(n_samples):
            total = 0
            for station in range(n_onsets):
                delay = max(0, traveltimes[node * n_onsets + station])
                total += onsets[station * (first_idx + last_idx + n_samples) + first_idx + delay + sample]
            map4d[node * n_samples + sample] = np.exp(total / available)
    return map4d


def find_max_coa(map4d, threads):
    *grid_dimensions, n_samples = map4d.shape
    n_nodes = np.prod(grid_dimensions)
    max_coa = np.zeros(n_samples, dtype=np.double)
    max_norm_coa = np.zeros(n_samples, dtype=np.double)
    max_coa_idx = np.zeros(n_samples, dtype=np.int64)
    for sample in range(n_samples):
        best = map4d[sample]
        best_node = 0
        total = map4d[sample]
        for node in range(1, n_nodes):
            value = map4d[node * n_samples + sample]
            total += value
            if value > best:
                best = value
                best_node = node
        max_coa[sample] = best
        max_norm_coa[sample] = best * n_nodes / total
        max_coa_idx[sample] = best_node
    return max_coa, max_norm_coa, max_coa_idx


def overlapping(signal, nsta, nlta):
    n = len(signal)
    signal = np.ascontiguousarray(signal, dtype=np.double)
    onset = np.ones(len(signal), dtype=np.double)
    if nsta < 1 or nlta < nsta or nlta > n:
        return onset
    sta = 0
    for i in range(0, nsta):
        sta += signal[i]
    lta = sta
    for i in range(nsta, nlta):
        lta += signal[i]
        sta += signal[i] - signal[i - nsta]
    onset[nlta - 1] = sta / lta * (nlta / nsta) if lta > 0 else 1
    for i in range(nlta, n):
        sta += signal[i] - signal[i - nsta]
        lta += signal[i] - signal[i - nlta]
        onset[i] = sta / lta * (nlta / nsta) if lta > 0 else 1
    return onset


def centred(signal, nsta, nlta):
    n = len(signal)
    signal = np.ascontiguousarray(signal, dtype=np.double)
    onset = np.ones(len(signal), dtype=np.double)
    if nsta < 1 or nlta < 1 or nlta + nsta > n:
        return onset
    lta = 0
    for i in range(0, nlta):
        lta += signal[i]
    sta = 0
    for i in range(nlta, nlta + nsta):
        sta += signal[i]
    onset[nlta - 1] = sta / lta * (nlta / nsta) if lta > 0 else 1
    for i in range(nlta, n - nsta):
        sta += signal[i + nsta] - signal[i]
        lta += signal[i] - signal[i - nlta]
        onset[i] = sta / lta * (nlta / nsta) if lta > 0 else 1
    return onset


def recursive(signal, nsta, nlta):
    n = len(signal)
    signal = np.ascontiguousarray(signal, dtype=np.double)
    onset = np.zeros(len(signal), dtype=np.double)
    sta = 0
    lta = 0
    for i in range(1, n):
        sta = signal[i] / nsta + (1 - 1 / nsta) * sta
        lta = signal[i] / nlta + (1 - 1 / nlta) * lta
        onset[i] = sta / lta if lta > 0 else 1
    if nlta < n:
        for i in range(nlta):
            onset[i] = 1
    return onset


def load(name):
    lib = (pathlib.Path(__file__).parent / "src" / name).with_suffix(sysconfig.get_config_var("EXT_SUFFIX"))
    try:
        return ctypes.CDLL(str(lib))
    except Exception as e:
        raise ImportError(e)
