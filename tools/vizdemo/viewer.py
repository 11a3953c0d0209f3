import json, math, os, struct, subprocess
M = 6.371e6
def run(binary, data, scans, frames, pause, timeout=60):
    """scans: [(pose fields, [(x, y, z)...])]; the frames drawn, or None if the viewer does not get done."""
    a, b = os.path.join(data, "oxts/data"), os.path.join(data, "velodyne_points/data"); os.makedirs(a); os.makedirs(b)
    for k, (pose, pts) in enumerate(scans):
        open(os.path.join(a, "%06d.txt" % k), "w").write(" ".join(repr(x) for x in pose))
        with open(os.path.join(b, "%06d.bin" % k), "wb") as f:
            for p in pts: f.write(struct.pack("<4f", p[0], p[1], p[2], 0.0))
    try: r = subprocess.run([binary, data], env=dict(os.environ, FRAMES=str(frames), PAUSE=str(pause)), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout, text=True)
    except subprocess.TimeoutExpired: return None
    return [json.loads(l) for l in r.stdout.split("\n") if l.startswith("{")]
def origin(frame): return tuple(round(x, 2) for x in frame["lines"][0][0])
