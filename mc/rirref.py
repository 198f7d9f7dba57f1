"""Impulse responses straight from pyroomacoustics, one source and one microphone at a time."""
import numpy as np
import pyroomacoustics as pra
import scipy.signal as spsig

def ism_pair(src, mic, room_size, room_center, ir_len, sr, rt60, c, extra_delay):
    room_size = np.array(room_size, dtype=float)
    off = room_size / 2 - np.array(room_center, dtype=float)
    old_c, old_f = pra.constants.get("c"), pra.constants.get("frac_delay_length")
    try:
        pra.constants.set("c", c)
        pra.constants.set("frac_delay_length", 2 * extra_delay + 1)
        e_abs, order = (0.9, 0)
        if rt60 > 0:
            e_abs, order = pra.inverse_sabine(rt60, room_size)
            order += 8
        room = pra.ShoeBox(room_size, materials=pra.Material(e_abs), fs=sr, max_order=order)
        room.add_source(np.array(src) + off)
        room.add_microphone_array(pra.MicrophoneArray((np.array(mic) + off)[:, None], sr))
        room.compute_rir()
        h = np.array(room.rir[0][0])
    finally:
        pra.constants.set("c", old_c); pra.constants.set("frac_delay_length", old_f)
    out = np.zeros(ir_len)
    n = min(len(h), ir_len)
    out[:n] = h[:n]
    return out

_cache = {}
def ism(src_pos, mic_pos, si):
    """(sources x microphones x length) for the configuration si, without high-pass"""
    key0 = (tuple(si.room_size), tuple(si.room_center), si.max_room_ir_length, si.samplerate, si.rt60, si.c, si.extra_delay)
    out = np.zeros((len(src_pos), len(mic_pos), si.max_room_ir_length))
    for i, s in enumerate(np.asarray(src_pos, dtype=float)):
        for j, m in enumerate(np.asarray(mic_pos, dtype=float)):
            key = (tuple(s), tuple(m)) + key0
            if key not in _cache:
                if len(_cache) > 20000:
                    _cache.clear()
                _cache[key] = ism_pair(s, m, *key0)
            out[i, j] = _cache[key]
    return out

def highpass(h, sr, cutoff):
    """zero-phase second-order Butterworth high-pass, applied to the padded response"""
    if cutoff <= 0:
        return h
    sos = spsig.butter(2, cutoff, "highpass", fs=sr, output="sos")
    z = np.zeros((*h.shape[:-1], sr))
    return spsig.sosfiltfilt(sos, np.concatenate((z, h, z), axis=-1), axis=-1)[..., sr:-sr]
