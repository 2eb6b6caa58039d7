//! Shrinks a failing choice sequence: shorter first, then smaller.

/// `still` runs a candidate; `Some(choices actually used)` if it still fails.
pub fn shrink(
    start: Vec<u64>,
    budget: usize,
    still: &mut dyn FnMut(&[u64]) -> Option<Vec<u64>>,
) -> Vec<u64> {
    let mut best = start;
    let mut left = budget;
    let since = std::time::Instant::now();
    let mut t = |cand: Vec<u64>, best: &mut Vec<u64>, left: &mut usize| -> bool {
        if *left == 0 || !simpler(&cand, best) {
            return false;
        }
        *left -= 1;
        if since.elapsed().as_secs() >= 40 {
            *left = 0;
        }
        match still(&cand) {
            Some(mut used) => {
                while used.last() == Some(&0) {
                    used.pop();
                }
                if simpler(&used, best) {
                    *best = used;
                } else {
                    *best = cand;
                }
                true
            }
            None => false,
        }
    };
    loop {
        let before = best.clone();
        // drop the tail
        let mut k = best.len() / 2;
        while k > 0 {
            if best.len() >= k {
                let c = best[..best.len() - k].to_vec();
                if t(c, &mut best, &mut left) {
                    continue;
                }
            }
            k /= 2;
        }
        // delete blocks
        for size in [16usize, 8, 4, 3, 2, 1] {
            let mut i = best.len().saturating_sub(size);
            loop {
                if i + size <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + size);
                    t(c, &mut best, &mut left);
                }
                if i == 0 || left == 0 {
                    break;
                }
                i -= 1;
            }
        }
        // zero blocks, then minimise single values
        for size in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i < best.len() {
                let e = core::cmp::min(i + size, best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    t(c, &mut best, &mut left);
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() && left > 0 {
            let mut lo = 0u64;
            let mut hi = best[i];
            let mut guard = 0;
            while lo < hi && left > 0 && guard < 70 {
                guard += 1;
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                if i >= c.len() {
                    break;
                }
                c[i] = mid;
                if t(c, &mut best, &mut left) {
                    if i >= best.len() {
                        break;
                    }
                    hi = core::cmp::min(mid, best[i]);
                } else {
                    lo = mid + 1;
                }
            }
            // small decrements reach what bisection misses
            for d in [1u64, 2, 8] {
                while i < best.len() && best[i] >= d && left > 0 {
                    let mut c = best.clone();
                    c[i] -= d;
                    if !t(c, &mut best, &mut left) {
                        break;
                    }
                }
            }
            i += 1;
        }
        if best == before || left == 0 {
            return best;
        }
    }
}

fn simpler(a: &[u64], b: &[u64]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}
