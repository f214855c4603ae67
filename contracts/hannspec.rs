// closed form of the Hann window (N = number of samples)
pub open spec fn w_hann(i: int, n: int) -> real { 1real / 2real - (1real / 2real) * rcos(2real * rpi() * (i as real) / (n as real)) }
