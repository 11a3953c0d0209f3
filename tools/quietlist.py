"""Edits that change no behaviour: (name, properties to check (empty: all), [(file, old, new)])."""
Q = []
CB, BO, GM, CL, LN, RC, PC, CV, MA, OG = ["src/" + x for x in ("geom/cell_bounds.rs", "geom/bounds.rs", "map/grid_map.rs", "geom/cell.rs", "map/lidar_noise_model.rs", "ray_caster.rs", "geom/point_cloud.rs", "geom/converter.rs", "math.rs", "map/occupancy_grid_map.rs")]
RAY = ["R01", "R02", "R03", "R04"]
DIM = open("/repo/src/ray_caster.rs").read()
DIM = DIM[DIM.index("        let dim = {\n"):DIM.index("        current_cell[dim] += step[dim] as isize;")]
Q.append(("ray-dim-helper", RAY, [(RC, DIM, "        let dim = nearest_axis(&t_max);\n"), (RC, "/// Returns all the cells that are passed", """fn nearest_axis<NaD>(t_max: &Point<NaD>) -> usize
where
    NaD: na::DimName,
    na::DefaultAllocator: na::allocator::Allocator<f32, NaD>,
{
    let mut best = 0;
    for i in 1..t_max.len() {
        if t_max[i] <= t_max[best] {
            best = i;
        }
    }
    best
}

/// Returns all the cells that are passed""")]))
Q.append(("ray-dim-match", RAY, [(RC, DIM, """        let dim = if origin_cell.len() == 2 {
            (t_max[0] >= t_max[1]) as usize
        } else {
            match (t_max[0] < t_max[1], t_max[0] < t_max[2], t_max[1] < t_max[2]) {
                (true, true, _) => 0,
                (true, false, _) => 2,
                (false, _, true) => 1,
                _ => 2,
            }
        };
""")]))
Q.append(("ray-dim-minby", RAY, [(RC, DIM, """        let dim = (0..t_max.len())
            .rev()
            .min_by(|&a, &b| t_max[a].partial_cmp(&t_max[b]).unwrap())
            .unwrap();
""")]))
Q.append(("ray-push-at-head", RAY, [(RC, "    ray_cells.push(origin_cell.clone());\n", ""), (RC, "    loop {\n", "    loop {\n        ray_cells.push(current_cell.clone());\n"), (RC, "            }\n        }\n        ray_cells.push(current_cell.clone());\n    }", "            }\n        }\n    }")]))
Q.append(("ray-while", RAY, [(RC, "    ray_cells.push(origin_cell.clone());\n", ""), (RC, "    loop {\n", "    while current_cell != end_cell {\n        ray_cells.push(current_cell.clone());\n"), (RC, "        if current_cell == end_cell {\n            break;\n        }\n        if max_len > 0.0 {", "        if current_cell != end_cell && max_len > 0.0 {"), (RC, "            }\n        }\n        ray_cells.push(current_cell.clone());\n    }", "            }\n        }\n    }")]))
Q.append(("ray-vec-macro", RAY, [(RC, "    let mut ray_cells = vec![];\n", ""), (RC, "return (ray_cells, Some(end_cell));", "return (vec![], Some(end_cell));"), (RC, "    ray_cells.push(origin_cell.clone());\n", "    let mut ray_cells = vec![origin_cell.clone()];\n")]))
Q.append(("ray-capacity", RAY, [(RC, "    let mut ray_cells = vec![];\n", "    let mut ray_cells = Vec::with_capacity(16);\n")]))
Q.append(("ray-norm", RAY, [(RC, "    let max_len_sq = max_len * max_len;\n", ""), (RC, "current_ray.norm_squared() > max_len_sq", "current_ray.norm() > max_len")]))
Q.append(("ray-limit-first", RAY, [(RC, "        if max_len > 0.0 {\n", "        if limited {\n"), (RC, "    let max_len_sq = max_len * max_len;\n", "    let limited = max_len > 0.0;\n    let max_len_sq = max_len.powi(2);\n")]))
Q.append(("ray-iter-zip", RAY, [(RC, "        current_cell[dim] += step[dim] as isize;\n", "        if step[dim] > 0.0 {\n            current_cell[dim] += 1;\n        } else {\n            current_cell[dim] -= 1;\n        }\n")]))
Q.append(("ray-done-flag", RAY, [(RC, "    loop {\n        // This", "    let mut done = false;\n    while !done {\n        // This"), (RC, "            break;\n        }\n        if max_len", "            done = true;\n            continue;\n        }\n        if max_len")]))
Q.append(("ray-border-helper", RAY, [(RC, "        let cell_border = geom::converter::point_coord_from_cell_coord(\n            current_cell[i],\n            bounds.min[i],\n            resolution,\n        ) + step[i] * resolution * 0.5;\n        t_max[i] = (cell_border - origin[i]) / direction[i];\n", "        let half = 0.5 * resolution;\n        let centre = geom::converter::point_coord_from_cell_coord(origin_cell[i], bounds.min[i], resolution);\n        let border = if step[i] > 0.0 { centre + half } else { centre - half };\n        t_max[i] = (border - origin[i]) / direction[i];\n")]))
Q.append(("ray-border-count", RAY, [(RC, "            t_max[dim] += t_delta[dim];\n", "            t_max[dim] = t_max[dim] + t_delta[dim] * 1.0;\n")]))

# ---- casting a whole cloud
CR0 = open("/repo/src/ray_caster.rs").read()
FOLD = CR0[CR0.index("    let (mut free_cells, occupied_cells) = point_cloud\n"):CR0.index("/// Returns all the cells that are passed")]
NEWS = "    let mut free_cells = std::collections::HashSet::new();\n    let mut occupied_cells = std::collections::HashSet::new();\n"
REM = "    for cell in &occupied_cells {\n        free_cells.remove(cell);\n    }\n"
END = "    (free_cells, occupied_cells)\n}\n\n"
LOOP = "    for point in point_cloud.points_iter() {\n        let (ray_cells, end_cell) = cast_ray(origin, &point, bounds, resolution, max_len);\n%s    }\n"
INSO = "        if let Some(end_cell) = end_cell {\n            occupied_cells.insert(end_cell);\n        }\n"; INSF = "        for cell in ray_cells {\n            free_cells.insert(cell);\n        }\n"
def rays(name, new): Q.append((name, ["R05"], [(RC, FOLD, new)]))
rays("rays-for", NEWS + LOOP % (INSO + INSF) + REM + END)
rays("rays-for-swapped", NEWS + LOOP % (INSF + INSO) + REM + END)
rays("rays-extend", NEWS + LOOP % ("        occupied_cells.extend(end_cell);\n        free_cells.extend(ray_cells);\n") + REM + END)
rays("rays-iter-ref", NEWS + LOOP % (INSO + "        for cell in ray_cells.iter() {\n            free_cells.insert(cell.clone());\n        }\n") + REM.replace("in &occupied_cells", "in occupied_cells.iter()") + END)
rays("rays-retain", NEWS + LOOP % (INSO + INSF) + "    free_cells.retain(|cell| !occupied_cells.contains(cell));\n" + END)
rays("rays-difference", NEWS.replace("let mut free_cells =", "let mut free_cells: std::collections::HashSet<Cell<NaD>> =").replace("let mut occupied_cells =", "let mut occupied_cells: std::collections::HashSet<Cell<NaD>> =") + LOOP % (INSO + INSF) + "    let free_cells = free_cells\n        .difference(&occupied_cells)\n        .cloned()\n        .collect();\n" + END)
rays("rays-index", NEWS + """    for i in 0..point_cloud.num_points() {
        let point = Point::<NaD>::from(point_cloud.data.column(i).clone_owned());
        let (ray_cells, end_cell) = cast_ray(origin, &point, bounds, resolution, max_len);
""" + INSO + INSF + "    }\n" + REM + END)
rays("rays-foreach", NEWS + """    point_cloud.points_iter().for_each(|point| {
        let (ray_cells, end_cell) = cast_ray(origin, &point, bounds, resolution, max_len);
        if let Some(end_cell) = end_cell {
            occupied_cells.insert(end_cell);
        }
        ray_cells.into_iter().for_each(|cell| {
            free_cells.insert(cell);
        });
    });
""" + REM + END)
rays("rays-helper", NEWS + LOOP % ("        merge(&mut free_cells, &mut occupied_cells, ray_cells, end_cell);\n") + REM + END + """fn merge<NaD>(
    free: &mut std::collections::HashSet<Cell<NaD>>,
    occupied: &mut std::collections::HashSet<Cell<NaD>>,
    ray_cells: Vec<Cell<NaD>>,
    end_cell: Option<Cell<NaD>>,
) where
    NaD: na::DimName + std::hash::Hash,
    na::DefaultAllocator: na::allocator::Allocator<f32, NaD> + na::allocator::Allocator<isize, NaD>,
    <na::DefaultAllocator as na::allocator::Allocator<isize, NaD>>::Buffer: std::hash::Hash,
{
    for cell in ray_cells {
        free.insert(cell);
    }
    if let Some(cell) = end_cell {
        occupied.insert(cell);
    }
}

""")
rays("rays-sub", NEWS.replace("let mut free_cells =", "let mut free_cells: std::collections::HashSet<Cell<NaD>> =").replace("let mut occupied_cells =", "let mut occupied_cells: std::collections::HashSet<Cell<NaD>> =") + LOOP % (INSO + INSF) + "    let free_cells = &free_cells - &occupied_cells;\n" + END)
rays("rays-contains", NEWS + LOOP % (INSO + "        for cell in ray_cells {\n            if !free_cells.contains(&cell) {\n                free_cells.insert(cell);\n            }\n        }\n") + REM + END)
rays("rays-remove-if", NEWS + LOOP % (INSO + INSF) + "    for cell in &occupied_cells {\n        if free_cells.contains(cell) {\n            free_cells.remove(cell);\n        }\n    }\n" + END)

# ---- integrating a scan
LN0 = open("/repo/src/map/lidar_noise_model.rs").read()
TAIL = LN0[LN0.index("        let track_changes = grid_map.track_changes();\n"):LN0.index("    fn occupied(")]
GROW = LN0[LN0.index("        // The rays start in the cell"):LN0.index("        grid_map.expand_bounds(")]
def integ(name, new, old=None): Q.append((name, ["N02", "N03", "N04"], [(LN, old or TAIL, new)]))
UPD = "        for cell in &free_cells {\n            self.integrate_miss(grid_map, cell);\n        }\n        for cell in &occupied_cells {\n            self.integrate_hit(grid_map, cell);\n        }\n"
integ("integ-collect", UPD + "        if grid_map.track_changes() {\n            let mut changed_cells: Vec<Cell<NaD>> = free_cells.iter().cloned().collect();\n            changed_cells.extend(occupied_cells.iter().cloned());\n            grid_map.add_changed_cells(changed_cells);\n        }\n    }\n\n")
integ("integ-chain", UPD + "        if grid_map.track_changes() {\n            grid_map.add_changed_cells(free_cells.iter().chain(&occupied_cells).cloned().collect());\n        }\n    }\n\n")
integ("integ-owned", """        let track_changes = grid_map.track_changes();
        let mut changed_cells: Vec<Cell<NaD>> = Vec::with_capacity(free_cells.len() + occupied_cells.len());
        for cell in free_cells {
            self.integrate_miss(grid_map, &cell);
            changed_cells.push(cell);
        }
        for cell in occupied_cells {
            self.integrate_hit(grid_map, &cell);
            changed_cells.push(cell);
        }
        if track_changes {
            grid_map.add_changed_cells(changed_cells);
        }
    }

""")
integ("integ-two-adds", """        let mut changed_cells: Vec<Cell<NaD>> = vec![];
        for cell in occupied_cells.iter() {
            self.integrate_hit(grid_map, cell);
            changed_cells.push(cell.clone());
        }
        if grid_map.track_changes() {
            grid_map.add_changed_cells(changed_cells);
        }
        let mut changed_cells: Vec<Cell<NaD>> = vec![];
        for cell in free_cells.iter() {
            self.integrate_miss(grid_map, cell);
            changed_cells.push(cell.clone());
        }
        if grid_map.track_changes() {
            grid_map.add_changed_cells(changed_cells);
        }
    }

""")
integ("integ-branch", """        if grid_map.track_changes() {
            let mut changed_cells: Vec<Cell<NaD>> = vec![];
            for cell in &free_cells {
                self.integrate_miss(grid_map, cell);
                changed_cells.push(cell.clone());
            }
            for cell in &occupied_cells {
                self.integrate_hit(grid_map, cell);
                changed_cells.push(cell.clone());
            }
            grid_map.add_changed_cells(changed_cells);
            return;
        }
""" + UPD + "    }\n\n")
integ("integ-inline", TAIL.replace("self.integrate_miss(grid_map, cell);", "let value = grid_map.get(cell) + self.miss_probability_logodds;\n            grid_map.set(cell, value.max(self.min_probability_logodds));"))
integ("grow-index", """        let mut bounds = point_cloud.bounds();
        for i in 0..origin.len() {
            if origin[i] < bounds.min[i] {
                bounds.min[i] = origin[i];
            }
            if origin[i] > bounds.max[i] {
                bounds.max[i] = origin[i];
            }
        }
""", GROW)
integ("grow-new", """        let cloud = point_cloud.bounds();
        let mut min = cloud.min.clone();
        let mut max = cloud.max.clone();
        for (i, coord) in origin.iter().enumerate() {
            min[i] = coord.min(min[i]);
            max[i] = coord.max(max[i]);
        }
        let bounds = crate::geom::Bounds::new(min, max);
""", GROW)
PCT = open("/repo/src/geom/point_cloud.rs").read()
BOX = PCT[PCT.index("        self.points_iter()\n            .fold("):PCT.index("impl PointCloud<na::U3> {")]
def box(name, body): Q.append((name, ["G09", "N03"], [(PC, BOX, body + "    }\n}\n\n")]))
box("box-for", """        let mut bounds = Bounds::<NaD>::empty();
        for point in self.points_iter() {
            for i in 0..point.len() {
                bounds.min[i] = bounds.min[i].min(point[i]);
                bounds.max[i] = bounds.max[i].max(point[i]);
            }
        }
        bounds
""")
box("box-separate", """        let mut min = Bounds::<NaD>::empty().min;
        let mut max = Bounds::<NaD>::empty().max;
        for point in self.points_iter() {
            for (i, val) in point.iter().enumerate() {
                if *val < min[i] {
                    min[i] = *val;
                } else if *val > max[i] {
                    max[i] = *val;
                }
            }
        }
        Bounds::<NaD>::new(min, max)
""")
box("box-axes", """        let mut bounds = Bounds::<NaD>::empty();
        for i in 0..bounds.min.len() {
            bounds.min[i] = self.points_iter().map(|p| p[i]).fold(bounds.min[i], f32::min);
            bounds.max[i] = self.points_iter().map(|p| p[i]).fold(bounds.max[i], f32::max);
        }
        bounds
""")
box("box-columns", """        let mut bounds = Bounds::<NaD>::empty();
        for c in 0..self.num_points() {
            for r in 0..self.data.nrows() {
                let v = self.data[(r, c)];
                if v < bounds.min[r] {
                    bounds.min[r] = v;
                }
                if v > bounds.max[r] {
                    bounds.max[r] = v;
                }
            }
        }
        bounds
""")
Q.append(("box-helper", ["G09", "N03"], [(PC, """                for (i, point_val) in point.iter().enumerate() {
                    if *point_val < bounds.min[i] {
                        bounds.min[i] = *point_val;
                    }
                    if *point_val > bounds.max[i] {
                        bounds.max[i] = *point_val;
                    }
                }
                bounds
""", """                bounds.include(&point);
                bounds
"""), (BO, "    pub fn empty() -> Self {", """    pub(crate) fn include(&mut self, point: &Point<NaD>) {
        for (i, val) in point.iter().enumerate() {
            if self.max[i] < *val {
                self.max[i] = *val;
            }
            if self.min[i] > *val {
                self.min[i] = *val;
            }
        }
    }

    pub fn empty() -> Self {""")]))
Q.append(("box-while", ["G09", "N03"], [(PC, BOX, """        let mut bounds = Bounds::<NaD>::empty();
        let mut points = self.points_iter();
        while let Some(point) = points.next() {
            bounds = point.iter().enumerate().fold(bounds, |mut b, (i, v)| {
                b.min[i] = if b.min[i] <= *v { b.min[i] } else { *v };
                b.max[i] = if b.max[i] >= *v { b.max[i] } else { *v };
                b
            });
        }
        bounds
    }
}

""")]))

# ------------------------------------------------------------------ storing and listing points
FPT = """        PointCloud::<NaD> {
            data: na::MatrixMN::<f32, NaD, na::Dynamic>::from_iterator(
                points.len(),
                points.iter().flat_map(|point| point.coords.iter()).cloned(),
            ),
        }
"""
def fp(name, new): Q.append((name, ["G10"], [(PC, FPT, new)]))
fp("fp-helper", """        let coords = points.iter().flat_map(|p| p.coords.iter()).copied();
        Self::from_data(na::MatrixMN::<f32, NaD, na::Dynamic>::from_iterator(points.len(), coords))
""")
fp("fp-push", """        let mut coords = Vec::with_capacity(points.len() * NaD::dim());
        for point in points {
            for c in point.coords.iter() {
                coords.push(*c);
            }
        }
        Self::from_data(na::MatrixMN::<f32, NaD, na::Dynamic>::from_vec(coords))
""")
fp("fp-push-index", """        let mut coords: Vec<f32> = Vec::new();
        for k in 0..points.len() {
            let point = &points[k];
            for i in 0..NaD::dim() {
                coords.push(point[i]);
            }
        }
        let data = na::MatrixMN::<f32, NaD, na::Dynamic>::from_vec(coords);
        PointCloud { data }
""")
fp("fp-fn", """        PointCloud::<NaD> {
            data: na::MatrixMN::<f32, NaD, na::Dynamic>::from_fn(points.len(), |i, k| points[k][i]),
        }
""")
fp("fp-collect", """        let coords: Vec<f32> = points.iter().flat_map(|point| point.coords.iter()).cloned().collect();
        PointCloud::<NaD> { data: na::MatrixMN::<f32, NaD, na::Dynamic>::from_iterator(points.len(), coords.into_iter()) }
""")
fp("fp-extend", """        let mut coords: Vec<f32> = Vec::new();
        for point in points.iter() {
            coords.extend_from_slice(point.coords.as_slice());
        }
        PointCloud::<NaD> { data: na::MatrixMN::<f32, NaD, na::Dynamic>::from_vec(coords) }
""")
PIT = """        self.data.column_iter().map(|col| {
            // TODO(kgreenek): Figure out a way here not to make a copy.
            let coords = na::VectorN::<f32, NaD>::from_column_slice(col.as_slice());
            Point::<NaD>::from(coords)
        })
"""
def pi(name, new): Q.append((name, ["G10", "G09"], [(PC, PIT, new)]))
pi("it-owned", """        self.data.column_iter().map(|col| Point::<NaD>::from(col.into_owned()))
""")
pi("it-index", """        (0..self.data.ncols()).map(move |k| Point::<NaD>::from(self.data.column(k).into_owned()))
""")
pi("it-slice", """        self.data.as_slice().chunks(NaD::dim()).map(|c| Point::<NaD>::from(na::VectorN::<f32, NaD>::from_column_slice(c)))
""")
Q.append(("num-ncols", ["G10"], [(PC, "self.data.shape().1", "self.data.ncols()")]))
Q.append(("num-len", ["G10"], [(PC, "self.data.shape().1", "self.data.column_iter().len()")]))
TRT = PCT[PCT.index("        let homogeneous_mat = self\n"):PCT.index("#[cfg(test)]")]
def tr(name, body): Q.append((name, ["G11"], [(PC, TRT, body + "    }\n}\n\n")]))
tr("tr-steps", """        let cols = self.data.clone().insert_fixed_rows::<na::U1>(3, 1.0);
        let moved = transform * &cols;
        PointCloud { data: moved.remove_fixed_rows::<na::U1>(3) }
""")
tr("tr-loop", """        let mut coords: Vec<f32> = Vec::with_capacity(3 * self.num_points());
        for p in self.points_iter() {
            let q = transform * na::Vector4::new(p.x, p.y, p.z, 1.0);
            coords.push(q.x);
            coords.push(q.y);
            coords.push(q.z);
        }
        PointCloud { data: na::MatrixMN::<f32, na::U3, na::Dynamic>::from_vec(coords) }
""")
tr("tr-entries", """        let rows = self.data.clone();
        PointCloud::<na::U3>::from_data(na::MatrixMN::<f32, na::U3, na::Dynamic>::from_fn(rows.ncols(), |i, k| {
            transform[(i, 0)] * rows[(0, k)] + transform[(i, 1)] * rows[(1, k)] + transform[(i, 2)] * rows[(2, k)] + transform[(i, 3)]
        }))
""")
tr("tr-points", """        let points: Vec<Point<na::U3>> = self
            .points_iter()
            .map(|p| {
                let q = transform * p.to_homogeneous();
                Point::<na::U3>::new(q[0], q[1], q[2])
            })
            .collect();
        Self::from_points(&points)
""")
tr("tr-rows", """        let homogeneous_mat = self.data.clone().insert_fixed_rows::<na::U1>(self.data.nrows(), 1.0);
        let transformed_mat = transform * homogeneous_mat;
        PointCloud::<na::U3>::from_data(transformed_mat.fixed_rows::<na::U3>(0).into_owned())
""")
tr("tr-affine", """        let linear = transform.fixed_slice::<na::U3, na::U3>(0, 0).into_owned();
        let shift = na::Vector3::new(transform[(0, 3)], transform[(1, 3)], transform[(2, 3)]);
        let mut coords: Vec<f32> = Vec::new();
        for p in self.points_iter() {
            let q = linear * p.coords + shift;
            for c in q.iter() {
                coords.push(*c);
            }
        }
        PointCloud { data: na::MatrixMN::<f32, na::U3, na::Dynamic>::from_vec(coords) }
""")
def src(f, a, b):
    s = open("/repo/" + f).read(); i = s.index(a); return s[i:s.index(b, i)]
# --- boxes, converters, numbers -------------------------------------------------------------------------------------------------
Q.append(("g-new-all", [], [(BO, src(BO, "        for (min_val, max_val)", "        Bounds { min: min"), "        assert!(min.iter().zip(max.iter()).all(|(a, b)| a <= b), \"inverted box\");\n")]))
Q.append(("g-new-index", [], [(CB, src(CB, "        for (min_val, max_val)", "        CellBounds { min: min"), "        for i in 0..min.len() {\n            if min[i] > max[i] {\n                panic!(\"inverted box\");\n            }\n        }\n")]))
Q.append(("g-helper", [], [(BO, src(BO, "    pub fn from_size_cells(size_cells", "    /// The same as from_size_cells, but"), """    fn cells_at(size_cells: &Cell<NaD>, offset: &Cell<NaD>) -> CellBounds<NaD> {
        CellBounds::<NaD> {
            min: offset.clone(),
            max: Cell::<NaD>::from(&size_cells.coords + &offset.coords),
        }
    }

    pub fn from_size_cells(size_cells: &Cell<NaD>, resolution: f32, offset: &Cell<NaD>) -> Self {
        Self::from_cell_bounds(&Self::cells_at(size_cells, offset), resolution)
    }

""")]))
Q.append(("g-sizes", [], [(BO, src(BO, "        Bounds {\n            min: converter::point_from_cell(&cell_bounds.min", "    /// The same as from_cell_bounds, but"), """        let zero = Point::<NaD>::origin();
        let max = converter::point_from_cell(&cell_bounds.max, &zero, resolution);
        let min = converter::point_from_cell(&cell_bounds.min, &zero, resolution);
        Bounds { min, max }
    }

""")]))
Q.append(("g-snap-helper", [], [(BO, src(BO, "        Bounds::new(\n            Point::<NaD>::from(self.min.coords.map", "    /// Returns the min bounds that encloses"), """        let on_grid = |val: f32| {
            let cell = val / resolution;
            approx::relative_eq!(cell, cell.round())
        };
        let min = self.min.coords.map(|val| {
            if on_grid(val) {
                val
            } else {
                (val / resolution).floor() * resolution
            }
        });
        let max = self.max.coords.map(|val| match (on_grid(val), expand) {
            (true, true) => val + resolution,
            (true, false) => val,
            (false, _) => (val / resolution).ceil() * resolution,
        });
        Bounds::new(Point::<NaD>::from(min), Point::<NaD>::from(max))
    }

""")]))
Q.append(("g-snap-loop", [], [(BO, src(BO, "        Bounds::new(\n            Point::<NaD>::from(self.min.coords.map", "    /// Returns the min bounds that encloses"), """        let mut bounds = self.clone();
        for i in 0..self.min.len() {
            let low = self.min[i] / resolution;
            if !approx::relative_eq!(low, low.round()) {
                bounds.min[i] = low.floor() * resolution;
            }
            let high = self.max[i] / resolution;
            if !approx::relative_eq!(high, high.round()) {
                bounds.max[i] = high.ceil() * resolution;
            } else if expand {
                bounds.max[i] += resolution;
            }
        }
        Bounds::new(bounds.min, bounds.max)
    }

""")]))
ENC = src(BO, "        if *self == Bounds::empty() {", "    /// Returns the max bounds that overlaps")
Q.append(("g-enc-loop", [], [(BO, ENC, """        if self == &Bounds::empty() {
            return other.clone();
        }
        let mut bounds = other.clone();
        for i in 0..bounds.min.len() {
            if self.min[i] < bounds.min[i] {
                bounds.min[i] = self.min[i];
            }
            if self.max[i] > bounds.max[i] {
                bounds.max[i] = self.max[i];
            }
        }
        bounds
    }

""")]))
Q.append(("g-enc-minmax", [], [(BO, ENC, """        if *self == Bounds::empty() {
            return other.clone();
        }
        Bounds {
            min: Point::<NaD>::from(self.min.coords.zip_map(&other.min.coords, |a, b| a.min(b))),
            max: Point::<NaD>::from(self.max.coords.zip_map(&other.max.coords, |a, b| a.max(b))),
        }
    }

""")]))
Q.append(("g-enc-zip", [], [(BO, ENC, """        if *self == Bounds::empty() {
            return other.clone();
        }
        let mut bounds = other.clone();
        for (mine, theirs) in self.min.iter().zip(bounds.min.iter_mut()) {
            if *mine < *theirs {
                *theirs = *mine;
            }
        }
        for (mine, theirs) in self.max.iter().zip(bounds.max.iter_mut()) {
            *theirs = theirs.max(*mine);
        }
        bounds
    }

""")]))
OVR = src(BO, "        let mut bounds = Bounds::empty();\n        for i in", "impl<NaD> approx::AbsDiffEq")
Q.append(("g-over-two", [], [(BO, OVR, """        let dims = self.min.len();
        let mut bounds = self.clone();
        for i in 0..dims {
            bounds.min[i] = self.min[i].max(other.min[i]);
            bounds.max[i] = self.max[i].min(other.max[i]);
        }
        for i in 0..dims {
            if bounds.max[i] < bounds.min[i] || approx::relative_eq!(bounds.max[i], bounds.min[i]) {
                return Bounds::empty();
            }
        }
        bounds
    }
}

""")]))
Q.append(("g-over-any", [], [(BO, OVR, """        let min = Point::<NaD>::from(self.min.coords.zip_map(&other.min.coords, f32::max));
        let max = Point::<NaD>::from(self.max.coords.zip_map(&other.max.coords, f32::min));
        let apart = (0..min.len()).any(|i| max[i] < min[i] || approx::relative_eq!(max[i], min[i]));
        if apart {
            Bounds::empty()
        } else {
            Bounds { min, max }
        }
    }
}

""")]))
DIS = src(CB, "        CellBounds {\n            min: Cell::<NaD>::from(self.min.coords.map(|coord| {", "#[cfg(test)]")
Q.append(("g-tile-helper", [], [(CB, DIS, """        let tile = tile_size as isize;
        CellBounds {
            min: Cell::<NaD>::from(self.min.coords.map(|coord| round_down(coord, tile))),
            max: Cell::<NaD>::from(self.max.coords.map(|coord| -round_down(-coord, tile))),
        }
    }
}

fn round_down(coord: isize, tile: isize) -> isize {
    coord.div_euclid(tile) * tile
}

""")]))
Q.append(("g-tile-rem", [], [(CB, DIS, """        let tile = tile_size as isize;
        let min = self.min.coords.map(|coord| coord - coord.rem_euclid(tile));
        let max = self.max.coords.map(|coord| match coord.rem_euclid(tile) {
            0 => coord,
            rest => coord + (tile - rest),
        });
        CellBounds { min: Cell::<NaD>::from(min), max: Cell::<NaD>::from(max) }
    }
}

""")]))
Q.append(("g-tile-if", [], [(CB, DIS, """        let tile_size = tile_size as isize;
        let mut rounded = self.clone();
        for coord in rounded.min.iter_mut() {
            let rest = *coord % tile_size;
            *coord -= if rest < 0 { rest + tile_size } else { rest };
        }
        for coord in rounded.max.iter_mut() {
            let rest = *coord % tile_size;
            *coord -= rest;
            if rest > 0 {
                *coord += tile_size;
            }
        }
        rounded
    }
}

""")]))
Q.append(("g-conv-loop", [], [(CV, src(CV, "    Point::<NaD>::from(na::VectorN::<f32, NaD>::from_vec(", "/// Returns the cell corresponding to the given point, using n-dim"), """    let mut point = Point::<NaD>::origin();
    for i in 0..cell.len() {
        point[i] = point_coord_from_cell_coord(cell[i], offset[i], resolution[i]);
    }
    point
}

"""), (CV, src(CV, "    Cell::<NaD>::from(na::VectorN::<isize, NaD>::from_vec(", "#[cfg(test)]"), """    let mut cell = Cell::<NaD>::origin();
    for (i, coord) in cell.iter_mut().enumerate() {
        *coord = cell_coord_from_point_coord(point[i], offset[i], resolution[i]);
    }
    cell
}

""")]))
Q.append(("g-conv-fromfn", [], [(CV, src(CV, "    Cell::<NaD>::from(point.coords.zip_map", "/// Returns the point at the center of the given cell, using n-dim"), """    Cell::<NaD>::from(na::VectorN::<isize, NaD>::from_fn(|i, _| {
        cell_coord_from_point_coord(point[i], offset[i], resolution)
    }))
}

""")]))
Q.append(("g-conv-let", [], [(CV, "    ((point_coord - offset) / resolution).round() as isize", "    let distance = point_coord - offset;\n    let cells = distance / resolution;\n    cells.round() as isize"), (CV, "    (cell_coord as f32) * resolution + offset", "    let distance = cell_coord as f32 * resolution;\n    offset + distance")]))
Q.append(("g-signum-match", [], [(MA, src(MA, "    if value == 0.0 {", "pub fn logodds"), """    match value.partial_cmp(&0.0) {
        Some(std::cmp::Ordering::Equal) => 0.0,
        Some(std::cmp::Ordering::Greater) => 1.0,
        _ => -1.0,
    }
}

"""), ("src/geom/vector.rs", "    Vector::<NaD>::from(vec.column(0).map(|coord| math::f32_signum(coord)))", "    vec.map(math::f32_signum)")]))
Q.append(("g-signum-loop", [], [("src/geom/vector.rs", "    Vector::<NaD>::from(vec.column(0).map(|coord| math::f32_signum(coord)))", "    let mut signs = vec.clone();\n    for sign in signs.iter_mut() {\n        *sign = math::f32_signum(*sign);\n    }\n    signs")]))
Q.append(("g-odds-let", [], [(MA, "    (probability / (1.0 - probability)).ln()", "    let other = 1.0 - probability;\n    f32::ln(probability / other)"), (MA, "    1.0 - (1.0 / (1.0 + logodds.exp()))", "    let odds = logodds.exp();\n    1.0 - 1.0 / (odds + 1.0)")]))
# --- maps -----------------------------------------------------------------------------------------------------------------------
Q.append(("m-derive-clone", [], [(GM, src(GM, "impl<A, NaD, NdD> Clone for GridMapN", "fn ndarray_with_bounds"), ""), (GM, "pub struct GridMapN<A, NaD, NdD>\nwhere\n    NaD: na::DimName,", "#[derive(Clone)]\npub struct GridMapN<A, NaD, NdD>\nwhere\n    NaD: na::DimName,")]))
Q.append(("m-from-nd", [], [(GM, src(GM, "        GridMapN {\n            data: ndarray_with_bounds(resolution", "    pub fn default"), """        let data = ndarray_with_bounds(resolution, &bounds, default_value);
        Self::from_ndarray(data, resolution, bounds, tile_size)
    }

""")]))
Q.append(("m-index", [], [(GM, "        self.data[cell.to_ndindex()].clone()", "        let index = cell.to_ndindex();\n        self.data.get(index).expect(\"no such cell\").clone()"), (GM, "        self.data[cell.to_ndindex()] = value;", "        match self.data.get_mut(cell.to_ndindex()) {\n            Some(stored) => *stored = value,\n            None => panic!(\"no such cell\"),\n        }")]))
Q.append(("m-log", [], [(GM, "        self.changed_cells.clone()\n", "        self.changed_cells.to_vec()\n"), (GM, "        self.changed_cells.clear();", "        self.changed_cells.truncate(0);"), (GM, "        self.changed_cells.extend(cells);", "        let mut cells = cells;\n        self.changed_cells.append(&mut cells);")]))
Q.append(("m-log-for", [], [(GM, "        self.changed_cells.extend(cells);", "        self.changed_cells.reserve(cells.len());\n        for cell in cells {\n            self.changed_cells.push(cell);\n        }")]))
Q.append(("m-elem", [], [(GM, src(GM, "    let size_cells = geom::converter::cell_from_point(&bounds.max", "// This is unused"), """    let size_cells = geom::converter::cell_from_point(&bounds.max, &bounds.min, resolution);
    nd::Array::<A, NdD>::from_elem(size_cells.to_ndindex(), default_value)
}

""")]))
Q.append(("m-elem-loop", [], [(GM, "    let vec_size: isize = size_cells.iter().product();\n    let array_vec = std::vec::from_elem(default_value, vec_size as usize);", "    let mut vec_size = 1;\n    for i in 0..size_cells.len() {\n        vec_size *= size_cells[i];\n    }\n    let array_vec = vec![default_value; vec_size as usize];")]))
Q.append(("m-cell-array", [], [(CL, src(CL, "                unsafe {", "            }\n        }\n    )*}"), """                let index: [isize; $len] = self.coords.into();
                let mut unsigned = [0usize; $len];
                for (to, from) in unsigned.iter_mut().zip(index.iter()) {
                    *to = *from as usize;
                }
                nd::Dim(unsigned)
""")]))
Q.append(("m-grow-slice", [], [(GM, src(GM, "            let from_slice = self.data.slice(nd::s![0..cells_size.x, 0..cells_size.y,]);", "        }\n        self.bounds = new_bounds;"), "            to_slice.assign(&self.data.slice(nd::s![..cells_size.x, ..cells_size.y]));\n")]))
Q.append(("m-grow-match", [], [(GM, "        if new_cell_bounds == cell_bounds {\n            return;\n        }\n", "        let unchanged = cell_bounds == new_cell_bounds;\n        if unchanged {\n            return;\n        }\n"), (GM, "            assert!(offset.x >= 0 && offset.y >= 0);\n", ""), (GM, "        self.bounds = new_bounds;\n        self.data = to_data;", "        self.data = to_data;\n        self.bounds = new_bounds;")]))
Q.append(("m-grow-loop", [], [(GM, src(GM, "            let mut to_slice = to_data.slice_mut(nd::s![\n                offset.x..(cells_size.x + offset.x),\n                offset.y..(cells_size.y + offset.y),\n            ]);", "        }\n        self.bounds = new_bounds;"), """            for x in 0..cells_size.x {
                for y in 0..cells_size.y {
                    to_data[[(x + offset.x) as usize, (y + offset.y) as usize]] =
                        self.data[[x as usize, y as usize]].clone();
                }
            }
""")]))
Q.append(("m-grow-helper", [], [(GM, "        let mut to_data = ndarray_with_bounds(self.resolution, &new_bounds, default_value);", "        let mut to_data = self.blank(&new_bounds, default_value);"), (GM, "impl<A, NaD, NdD> GridMap<A, NaD, NdD> for GridMapN", """impl<A, NaD, NdD> GridMapN<A, NaD, NdD>
where
    A: na::Scalar,
    NaD: na::DimName,
    NdD: nd::Dimension,
    Cell<NaD>: CellToNdIndex<NaD, NdD>,
    na::DefaultAllocator: na::allocator::Allocator<A, NaD>
        + na::allocator::Allocator<f32, NaD>
        + na::allocator::Allocator<isize, NaD>,
{
    fn blank(&self, bounds: &Bounds<NaD>, default_value: A) -> nd::Array<A, NdD> {
        ndarray_with_bounds(self.resolution, bounds, default_value)
    }
}

impl<A, NaD, NdD> GridMap<A, NaD, NdD> for GridMapN""")]))
# --- models and occupancy maps --------------------------------------------------------------------------------------------------
NN = ["N02", "N03", "N04"]
Q.append(("n-new-loop", [], [(LN, src(LN, "        assert!(hit_probability >= 0.0", "        LidarNoiseModel {"), """        for probability in &[hit_probability, miss_probability, min_probability, max_probability, occupied_threshold] {
            assert!((0.0..=1.0).contains(probability), "no probability: {}", probability);
        }
""")]))
Q.append(("n-new-helper", [], [(LN, src(LN, "        assert!(hit_probability >= 0.0", "    pub fn default"), """        LidarNoiseModel {
            hit_probability_logodds: checked(hit_probability),
            miss_probability_logodds: checked(miss_probability),
            min_probability_logodds: checked(min_probability),
            max_probability_logodds: checked(max_probability),
            occupied_threshold_logodds: checked(occupied_threshold),
            max_range,
        }
    }

"""), (LN, "impl LidarNoiseModel {", """fn checked(probability: f32) -> f32 {
    if !(probability >= 0.0 && probability <= 1.0) {
        panic!("not a probability: {}", probability);
    }
    math::logodds_from_probability(probability)
}

impl LidarNoiseModel {""")]))
Q.append(("n-step-let", [], [(LN, "        grid_map.set(\n            &cell,\n            (grid_map.get(&cell) + self.hit_probability_logodds).min(self.max_probability_logodds),\n        );", "        let before = grid_map.get(cell);\n        let after = before + self.hit_probability_logodds;\n        grid_map.set(cell, after.min(self.max_probability_logodds));"),
 (LN, "        grid_map.set(\n            &cell,\n            (grid_map.get(&cell) + self.miss_probability_logodds).max(self.min_probability_logodds),\n        );", "        let mut value = grid_map.get(cell);\n        value += self.miss_probability_logodds;\n        value = value.max(self.min_probability_logodds);\n        grid_map.set(cell, value);")]))
Q.append(("n-step-helper", [], [(LN, "        grid_map.set(\n            &cell,\n            (grid_map.get(&cell) + self.hit_probability_logodds).min(self.max_probability_logodds),\n        );", "        let value = grid_map.get(&cell);\n        grid_map.set(&cell, self.after_hit(value));"),
 (LN, "    pub fn default() -> Self {", "    fn after_hit(&self, value: f32) -> f32 {\n        (self.hit_probability_logodds + value).min(self.max_probability_logodds)\n    }\n\n    pub fn default() -> Self {")]))
Q.append(("n-occ", [], [(LN, "        grid_map.get(cell) > self.occupied_threshold_logodds", "        let value = grid_map.get(cell);\n        self.occupied_threshold_logodds < value"), (OG, "        self.noise_model.occupied(&self.grid_map, cell)", "        let OccupancyGridMapN { grid_map, noise_model } = self;\n        noise_model.occupied(grid_map, cell)")]))
Q.append(("n-occ-new", [], [(OG, src(OG, "        OccupancyGridMapN {\n            grid_map: GridMapN::new(", "    pub fn integrate_point_cloud"), """        let default_value = noise_model.default_cell_value();
        let grid_map = GridMapN::new(resolution, Bounds::empty(), tile_size, default_value);
        OccupancyGridMapN { grid_map, noise_model }
    }

"""), (OG, "        self.grid_map.resolution\n", "        self.grid_map.resolution()\n"), (OG, "        self.grid_map.bounds.clone()", "        self.grid_map.bounds()")]))
Q.append(("n-cast-first", [], [(LN, "        let track_changes = grid_map.track_changes();\n        let mut changed_cells: Vec<Cell<NaD>> = vec![];\n        if track_changes {\n            changed_cells.reserve(free_cells.len() + occupied_cells.len());\n        }\n", "        let mut changed_cells: Vec<Cell<NaD>> = vec![];\n        let track_changes = grid_map.track_changes();\n")]))
Q.append(("n-helper", [], [(LN, "            self.integrate_miss(grid_map, cell);\n            if track_changes {\n                changed_cells.push(cell.clone());\n            }\n", "            self.integrate_miss(grid_map, cell);\n            remember(track_changes, &mut changed_cells, cell);\n"), (LN, "            self.integrate_hit(grid_map, cell);\n            if track_changes {\n                changed_cells.push(cell.clone());\n            }\n", "            self.integrate_hit(grid_map, cell);\n            remember(track_changes, &mut changed_cells, cell);\n"),
 (LN, "impl LidarNoiseModel {", """fn remember<T: Clone>(wanted: bool, cells: &mut Vec<T>, cell: &T) {
    if wanted {
        cells.push(cell.clone());
    }
}

impl LidarNoiseModel {""")]))
Q.append(("n-foreach", [], [(LN, src(LN, "        for cell in &free_cells {", "        if track_changes {\n            grid_map.add_changed"), """        free_cells.iter().for_each(|cell| self.integrate_miss(grid_map, cell));
        occupied_cells.iter().for_each(|cell| self.integrate_hit(grid_map, cell));
        if track_changes {
            changed_cells.extend(free_cells.into_iter().chain(occupied_cells));
        }
""")]))
Q.append(("n-foreach-push", NN, [(LN, src(LN, "        for cell in &free_cells {", "        if track_changes {\n            grid_map.add_changed"), """        free_cells.iter().for_each(|cell| {
            self.integrate_miss(grid_map, cell);
            if track_changes {
                changed_cells.push(cell.clone());
            }
        });
        occupied_cells.into_iter().for_each(|cell| {
            self.integrate_hit(grid_map, &cell);
            if track_changes {
                changed_cells.push(cell);
            }
        });
""")]))
Q.append(("m-field", [], [(GM, "    changed_cells: Vec<Cell<NaD>>,\n", "    changed_cells: Vec<Cell<NaD>>,\n    expansions: usize,\n"), (GM, "            changed_cells: vec![],\n", "            changed_cells: vec![],\n            expansions: 0,\n"),
 (GM, "            changed_cells: self.changed_cells.clone(),\n", "            changed_cells: self.changed_cells.clone(),\n            expansions: self.expansions,\n"), (GM, "        self.bounds = new_bounds;\n        self.data = to_data;", "        self.bounds = new_bounds;\n        self.data = to_data;\n        self.expansions += 1;")]))
Q.append(("m-rename", [], [(GM, "track_changes: bool,\n    changed_cells: Vec", "tracking: bool,\n    changed_cells: Vec"), (GM, "            track_changes: false", "            tracking: false"), (GM, "            track_changes: self.track_changes", "            tracking: self.tracking"), (GM, "        self.track_changes\n", "        self.tracking\n"), (GM, "self.track_changes = value", "self.tracking = value"),
 (GM, "    changed_cells: Vec<Cell<NaD>>,\n", "    changes: Vec<Cell<NaD>>,\n"), (GM, "            changed_cells: vec![]", "            changes: vec![]"), (GM, "changed_cells: self.changed_cells.clone()", "changes: self.changes.clone()"), (GM, "self.changed_cells.clone()", "self.changes.clone()"), (GM, "self.changed_cells.clear", "self.changes.clear"), (GM, "self.changed_cells.extend", "self.changes.extend"), (GM, "self.changed_cells.iter_mut", "self.changes.iter_mut")]))
Q.append(("m-state", [], [(GM, "    track_changes: bool,\n    changed_cells: Vec<Cell<NaD>>,\n}", """    log: ChangeLog<NaD>,
}

#[derive(Clone)]
struct ChangeLog<NaD>
where
    NaD: na::DimName,
    na::DefaultAllocator: na::allocator::Allocator<isize, NaD>,
{
    enabled: bool,
    cells: Vec<Cell<NaD>>,
}

impl<NaD> ChangeLog<NaD>
where
    NaD: na::DimName,
    na::DefaultAllocator: na::allocator::Allocator<isize, NaD>,
{
    fn new() -> Self {
        ChangeLog { enabled: false, cells: vec![] }
    }
}"""), (GM, "            track_changes: false,\n            changed_cells: vec![],", "            log: ChangeLog::new(),"), (GM, "            track_changes: self.track_changes,\n            changed_cells: self.changed_cells.clone(),", "            log: self.log.clone(),"), (GM, "        self.track_changes\n", "        self.log.enabled\n"), (GM, "self.track_changes = value", "self.log.enabled = value"),
 (GM, "self.changed_cells.clone()", "self.log.cells.clone()"), (GM, "self.changed_cells.clear", "self.log.cells.clear"), (GM, "self.changed_cells.extend", "self.log.cells.extend"), (GM, "self.changed_cells.iter_mut", "self.log.cells.iter_mut")]))
Q.append(("m-log-collect", ["M06", "M07", "M09", "W01", "W02"], [(GM, "        self.changed_cells.clone()\n", "        self.changed_cells.iter().cloned().collect()\n"), (GM, "        self.changed_cells.clear();", "        self.changed_cells = Vec::new();"), (GM, "        self.changed_cells.extend(cells);", "        self.changed_cells.extend(cells.into_iter());")]))
Q.append(("m-log-slice", ["M06", "M07", "M09", "W01", "W02"], [(GM, "        self.changed_cells.clone()\n", "        Vec::from(self.changed_cells.as_slice())\n"), (GM, "        self.changed_cells.clear();", "        self.changed_cells = vec![];"), (GM, "        self.changed_cells.extend(cells);", "        self.changed_cells.extend_from_slice(&cells);")]))
Q.append(("m-log-iter", ["M06", "M07", "M09", "W01", "W02"], [(GM, "        self.changed_cells.clone()\n", "        self.changed_cells[..].to_owned()\n"), (GM, "        self.changed_cells.clear();", "        drop(std::mem::take(&mut self.changed_cells));"), (GM, "        self.changed_cells.extend(cells);", "        for cell in cells.iter() {\n            self.changed_cells.push(cell.clone());\n        }")]))
Q.append(("m-log-index", ["M06", "M07", "M09", "W01", "W02"], [(GM, "        self.changed_cells.clone()\n", "        let mut cells = Vec::with_capacity(self.changed_cells.len());\n        cells.extend_from_slice(&self.changed_cells);\n        cells\n"), (GM, "        self.changed_cells.clear();", "        self.changed_cells.drain(..);"), (GM, "        self.changed_cells.extend(cells);", "        cells.into_iter().for_each(|cell| self.changed_cells.push(cell));")]))
Q.append(("m-log-clone", ["M06", "M07", "M09", "W01", "W02"], [(GM, "        self.changed_cells.clone()\n", "        let mut cells = vec![];\n        for cell in &self.changed_cells {\n            cells.push(cell.clone());\n        }\n        cells\n"), (GM, "        self.changed_cells.extend(cells);", "        self.changed_cells.extend(cells.iter().cloned());")]))
SH = "            self.changed_cells.iter_mut().for_each(|cell| *cell += offset);\n"
MM_ = ["M03", "M04", "M05", "M06", "M09", "W01", "W02"]
Q.append(("m-shift-for", MM_, [(GM, SH, "            for cell in &mut self.changed_cells {\n                *cell += offset;\n            }\n")]))
Q.append(("m-shift-coords", MM_, [(GM, SH, "            for cell in self.changed_cells.iter_mut() {\n                cell.coords += offset;\n            }\n")]))
Q.append(("m-shift-index", MM_, [(GM, SH, "            for i in 0..self.changed_cells.len() {\n                self.changed_cells[i] = self.changed_cells[i] + offset;\n            }\n")]))
Q.append(("m-shift-axes", MM_, [(GM, SH, "            for cell in self.changed_cells.iter_mut() {\n                for i in 0..cell.len() {\n                    cell[i] += offset[i];\n                }\n            }\n")]))
Q.append(("m-shift-map", MM_, [(GM, SH, "            self.changed_cells = self.changed_cells.iter().map(|cell| cell + offset).collect();\n")]))
Q.append(("m-shift-helper", MM_, [(GM, SH, "            move_cells(&mut self.changed_cells, &offset);\n"), (GM, "fn ndarray_with_bounds<", """fn move_cells<NaD>(cells: &mut Vec<Cell<NaD>>, offset: &na::VectorN<isize, NaD>)
where
    NaD: na::DimName,
    na::DefaultAllocator: na::allocator::Allocator<isize, NaD>,
{
    for cell in cells {
        cell.coords += offset;
    }
}

fn ndarray_with_bounds<""")]))
Q.append(("m-grow-early", MM_, [(GM, src(GM, "        if self.bounds != Bounds2::empty() {", "            let offset = cell_bounds.min"), "        let empty = self.bounds == Bounds2::empty();\n        if !empty {\n")]))
rays("rays-remove-foreach", NEWS + LOOP % (INSO + INSF) + "    occupied_cells.iter().for_each(|cell| {\n        free_cells.remove(cell);\n    });\n" + END)
rays("rays-extend-foreach", NEWS + LOOP % (INSO + "        ray_cells.into_iter().for_each(|cell| {\n            free_cells.insert(cell);\n        });\n") + REM + END)
# --- readers (k-) and viewer (v-)
import json, os
for n, near, ed in json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "quiet_more.json"))): Q.append((n, near, [tuple(e) for e in ed]))
# --- a further round: constructors, conversions, forwarding, comparisons
GB, CB, CV, OG, LN, CE, VE, MA, PC, RC = "src/geom/bounds.rs", "src/geom/cell_bounds.rs", "src/geom/converter.rs", "src/map/occupancy_grid_map.rs", "src/map/lidar_noise_model.rs", "src/geom/cell.rs", "src/geom/vector.rs", "src/math.rs", "src/geom/point_cloud.rs", "src/ray_caster.rs"
GM1 = "src/map/grid_map.rs"
G_ = "G03 G04 G05 G06 G08 G12 G13"
Q.append(("h-nd-fold", "M02 M03 M04 N06", [(GM1, "let vec_size: isize = size_cells.iter().product();", "let vec_size: isize = size_cells.iter().fold(1, |total, count| total * count);")]))
Q.append(("h-nd-vec", "M02 M03 M04 N06", [(GM1, "let array_vec = std::vec::from_elem(default_value, vec_size as usize);\n    return nd::Array::<A, NdD>::from_shape_vec(size_cells.to_ndindex(), array_vec).unwrap();", "let shape = size_cells.to_ndindex();\n    nd::Array::<A, NdD>::from_shape_vec(shape, vec![default_value; vec_size as usize]).expect(\"shape\")")]))
Q.append(("h-nd-usize", "M02 M03 M04 N06", [(GM1, "let vec_size: isize = size_cells.iter().product();\n    let array_vec = std::vec::from_elem(default_value, vec_size as usize);", "let mut vec_size = 1usize;\n    for count in size_cells.iter() {\n        vec_size *= *count as usize;\n    }\n    let array_vec = vec![default_value; vec_size];")]))
Q.append(("h-fcb-closure", G_, [(GB, """        Bounds {
            min: converter::point_from_cell(&cell_bounds.min, &Point::<NaD>::origin(), resolution),
            max: converter::point_from_cell(&cell_bounds.max, &Point::<NaD>::origin(), resolution),
        }""", """        let origin = Point::<NaD>::origin();
        let corner = |cell: &Cell<NaD>| converter::point_from_cell(cell, &origin, resolution);
        Bounds {
            max: corner(&cell_bounds.max),
            min: corner(&cell_bounds.min),
        }""")]))
Q.append(("h-fcb-coords", G_, [(GB, """            min: converter::point_from_cell(&cell_bounds.min, &Point::<NaD>::origin(), resolution),
            max: converter::point_from_cell(&cell_bounds.max, &Point::<NaD>::origin(), resolution),""", """            min: Point::<NaD>::from(cell_bounds.min.coords.map(|coord| coord as f32 * resolution)),
            max: Point::<NaD>::from(cell_bounds.max.coords.map(|coord| coord as f32 * resolution)),""")]))
Q.append(("h-fsc-helper", G_, [(GB, """        let cell_bounds = CellBounds::<NaD> {
            min: Cell::<NaD>::from(Cell::<NaD>::origin() + &offset.coords),
            max: Cell::<NaD>::from(size_cells + &offset.coords),
        };
        Self::from_cell_bounds(&cell_bounds, resolution)""", """        Self::from_cell_bounds(&Self::cells_at(size_cells, offset), resolution)"""), (GB, """        let cell_bounds = CellBounds::<NaD> {
            min: Cell::<NaD>::from(Cell::<NaD>::origin() + &offset.coords),
            max: Cell::<NaD>::from(size_cells + &offset.coords),
        };
        Self::from_cell_bounds_n(&cell_bounds, &resolution)""", """        Self::from_cell_bounds_n(&Self::cells_at(size_cells, offset), &resolution)"""), (GB, "    pub fn from_cell_bounds(cell", """    fn cells_at(size: &Cell<NaD>, offset: &Cell<NaD>) -> CellBounds<NaD> {
        CellBounds::<NaD> {
            min: offset.clone(),
            max: Cell::<NaD>::from(&offset.coords + &size.coords),
        }
    }

    pub fn from_cell_bounds(cell""")]))
Q.append(("h-empty", G_ + " G09", [(GB, "Bounds::new(Point::<NaD>::origin(), Point::<NaD>::origin())", "Bounds {\n            min: Point::<NaD>::origin(),\n            max: Point::<NaD>::origin(),\n        }"), (CB, "CellBounds::new(Cell::<NaD>::origin(), Cell::<NaD>::origin())", "let corner = Cell::<NaD>::origin();\n        CellBounds {\n            min: corner.clone(),\n            max: corner,\n        }")]))
Q.append(("h-cfb-match", G_, [(CB, """        if *bounds == Bounds::<NaD>::empty() {
            return CellBounds::empty()
        }
        CellBounds {
            min: converter::cell_from_point(&bounds.min, &Point::<NaD>::origin(), resolution),
            max: converter::cell_from_point(&bounds.max, &Point::<NaD>::origin(), resolution),
        }""", """        let origin = Point::<NaD>::origin();
        match *bounds == Bounds::<NaD>::empty() {
            true => CellBounds::empty(),
            false => CellBounds {
                min: converter::cell_from_point(&bounds.min, &origin, resolution),
                max: converter::cell_from_point(&bounds.max, &origin, resolution),
            },
        }""")]))
Q.append(("h-abs-all", G_, [(GB, "self.min.abs_diff_eq(&other.min, epsilon) && self.max.abs_diff_eq(&other.max, epsilon)", "let near = |a: &Point<NaD>, b: &Point<NaD>| {\n            a.iter()\n                .zip(b.iter())\n                .all(|(x, y)| approx::AbsDiffEq::abs_diff_eq(x, y, epsilon))\n        };\n        near(&self.max, &other.max) && near(&self.min, &other.min)")]))
Q.append(("h-rel-if", G_, [(GB, "        self.min.relative_eq(&other.min, epsilon, max_relative)\n            && self.max.relative_eq(&other.max, epsilon, max_relative)", "        if !self.max.relative_eq(&other.max, epsilon, max_relative) {\n            return false;\n        }\n        self.min.relative_eq(&other.min, epsilon, max_relative)")]))
Q.append(("h-eq-manual", G_, [(GB, "#[derive(Clone, Debug, PartialEq)]", "#[derive(Clone, Debug)]"), (GB, "impl<NaD> approx::AbsDiffEq for", "impl<NaD> PartialEq for Bounds<NaD>\nwhere\n    NaD: na::DimName,\n    na::DefaultAllocator: na::allocator::Allocator<f32, NaD>,\n{\n    fn eq(&self, other: &Self) -> bool {\n        self.max == other.max && self.min == other.min\n    }\n}\n\nimpl<NaD> approx::AbsDiffEq for")]))
Q.append(("h-disc-closure", G_ + " M05", [(GB, src(GB, "            Point::<NaD>::from(self.min.coords.map(|val| {", "    /// Returns the min bounds that encloses"), """            Point::<NaD>::from(self.min.coords.map(|val| match on_line(val) {
                true => val,
                false => (val / resolution).floor() * resolution,
            })),
            Point::<NaD>::from(self.max.coords.map(|val| match (on_line(val), expand) {
                (true, true) => val + resolution,
                (true, false) => val,
                (false, _) => (val / resolution).ceil() * resolution,
            })),
        )
    }

"""), (GB, "        Bounds::new(\n            Point::<NaD>::from(self.min.coords.map(|val|", "        let on_line = |val: f32| approx::relative_eq!(val / resolution, (val / resolution).round());\n        Bounds::new(\n            Point::<NaD>::from(self.min.coords.map(|val|")]))
Q.append(("h-conv-inline", "G01 G02 M01 R01 R02", [(CV, "        cell_coord_from_point_coord(coord, offset_coord, resolution)\n    }))", "        let cells = (coord - offset_coord) / resolution;\n        cells.round() as isize\n    }))"), (CV, "        point_coord_from_cell_coord(coord, offset_coord, resolution)\n    }))", "        offset_coord + resolution * coord as f32\n    }))")]))
Q.append(("h-conv-n-index", "G01 G02 G08", [(CV, """    Point::<NaD>::from(na::VectorN::<f32, NaD>::from_vec(
        cell.coords
            .iter()
            .zip(&offset.coords)
            .zip(&resolution.coords)
            .map(|((coord, offset_coord), resolution_coord)| {
                point_coord_from_cell_coord(*coord, *offset_coord, *resolution_coord)
            })
            .collect::<Vec<f32>>(),
    ))""", """    let mut point = Point::<NaD>::origin();
    for i in 0..point.len() {
        point[i] = point_coord_from_cell_coord(cell[i], offset[i], resolution[i]);
    }
    point""")]))
Q.append(("h-og-methods", "M08 M09 N06", [(OG, "self.grid_map.get(cell)", "let value = self.grid_map.get(cell);\n        value"), (OG, "        self.grid_map.resolution\n", "        self.grid_map.resolution()\n"), (OG, "self.grid_map.bounds.clone()", "self.grid_map.bounds()"), (OG, "self.grid_map.point_from_cell(cell)", "GridMap::point_from_cell(&self.grid_map, cell)")]))
Q.append(("h-og-new", "M08 M09 N06", [(OG, src(OG, "        OccupancyGridMapN {\n            grid_map: GridMapN::new(", "    pub fn integrate_point_cloud"), """        let unknown = noise_model.default_cell_value();
        let grid_map = GridMapN::new(resolution, Bounds::empty(), tile_size, unknown);
        OccupancyGridMapN {
            noise_model,
            grid_map,
        }
    }

""")]))
Q.append(("h-og-occ", "M08 M09 N06", [(OG, "        self.noise_model.occupied(&self.grid_map, cell)", "        let OccupancyGridMapN { grid_map, noise_model } = self;\n        noise_model.occupied(grid_map, cell)"), (OG, "        self.noise_model\n            .integrate_point_cloud(&mut self.grid_map, origin, point_cloud);", "        let grid_map = &mut self.grid_map;\n        let noise_model = &self.noise_model;\n        noise_model.integrate_point_cloud(grid_map, origin, point_cloud);")]))
Q.append(("h-lnm-contains", "N04 N05", [(LN, "assert!(%s >= 0.0 && %s <= 1.0);" % (v, v), "assert!((0.0..=1.0).contains(&%s));" % v) for v in ("hit_probability", "miss_probability", "min_probability", "max_probability", "occupied_threshold")]))
Q.append(("h-lnm-any", "N04 N05", [(LN, src(LN, "        assert!(hit_probability >= 0.0", "        LidarNoiseModel {\n            hit_prob"), """        let probabilities = [hit_probability, miss_probability, min_probability, max_probability, occupied_threshold];
        if !probabilities.iter().all(|p| *p >= 0.0 && *p <= 1.0) {
            panic!("a probability is not between 0 and 1");
        }
""")]))
Q.append(("h-hit-if", "N01 N02 N03", [(LN, "(grid_map.get(&cell) + self.hit_probability_logodds).min(self.max_probability_logodds),", "f32::min(self.max_probability_logodds, self.hit_probability_logodds + grid_map.get(cell)),")]))
Q.append(("h-occ-flip", "N01 N02 N03 N06 M08", [(LN, "grid_map.get(cell) > self.occupied_threshold_logodds", "let value = grid_map.get(cell);\n        self.occupied_threshold_logodds < value")]))
Q.append(("h-int-order", "N01 N02 N03 N06", [(LN, "        let track_changes = grid_map.track_changes();\n        let mut changed_cells: Vec<Cell<NaD>> = vec![];\n        if track_changes {\n            changed_cells.reserve(free_cells.len() + occupied_cells.len());\n        }\n", "        let track_changes = grid_map.track_changes();\n        let mut changed_cells = match track_changes {\n            true => Vec::with_capacity(free_cells.len() + occupied_cells.len()),\n            false => Vec::new(),\n        };\n")]))
Q.append(("h-int-swap", "N01 N02 N03 N06", [(LN, src(LN, "        for cell in &free_cells {", "        if track_changes {\n            grid_map.add"), """        for cell in &occupied_cells {
            self.integrate_hit(grid_map, cell);
        }
        for cell in free_cells.iter() {
            self.integrate_miss(grid_map, cell);
        }
        if track_changes {
            for cell in &free_cells {
                changed_cells.push(cell.clone());
            }
            for cell in &occupied_cells {
                changed_cells.push(cell.clone());
            }
        }
""")]))
Q.append(("h-cell-index", "M01 G13 M02", [(CE, src(CE, "                unsafe {", "            }\n        }\n    )*}"), """                let index: [isize; $len] = self.coords.into();
                let mut dim = [0usize; $len];
                for (to, from) in dim.iter_mut().zip(index.iter()) {
                    *to = *from as usize;
                }
                nd::Dim(dim)
""")]))
Q.append(("h-get-index", "M01 M06", [(GM1, "        self.data[cell.to_ndindex()].clone()", "        let index = cell.to_ndindex();\n        let value = &self.data[index];\n        value.clone()"), (GM1, "        self.data[cell.to_ndindex()] = value;", "        let slot = &mut self.data[cell.to_ndindex()];\n        *slot = value;")]))
Q.append(("h-get-get", "M01 M06", [(GM1, "        self.data[cell.to_ndindex()].clone()", "        self.data.get(cell.to_ndindex()).expect(\"outside\").clone()"), (GM1, "        self.data[cell.to_ndindex()] = value;", "        *self.data.get_mut(cell.to_ndindex()).expect(\"outside\") = value;")]))
Q.append(("h-signum-map", "S02 S01 R01 R02", [(VE, "Vector::<NaD>::from(vec.column(0).map(|coord| math::f32_signum(coord)))", "vec.map(math::f32_signum)")]))
Q.append(("h-signum-chain", "S02 S01 R01 R02", [(MA, src(MA, "    if value == 0.0 {", "}\n\npub fn logodds"), "    if value > 0.0 {\n        1.0\n    } else if value == 0.0 {\n        0.0\n    } else {\n        -1.0\n    }\n")]))
Q.append(("h-odds", "S01 N04 N05", [(MA, "    (probability / (1.0 - probability)).ln()", "    let complement = 1.0 - probability;\n    let odds = probability / complement;\n    odds.ln()"), (MA, "    1.0 - (1.0 / (1.0 + logodds.exp()))", "    let odds = logodds.exp();\n    1.0 - 1.0 / (odds + 1.0)")]))
Q.append(("h-iter-fixed", "G09 G10 G11 N01 R05", [(PC, "            let coords = na::VectorN::<f32, NaD>::from_column_slice(col.as_slice());\n            Point::<NaD>::from(coords)", "            Point::<NaD>::from(col.into_owned())")]))
Q.append(("h-iter-range", "G09 G10 G11 N01 R05", [(PC, src(PC, "        self.data.column_iter().map(|col| {", "    pub fn num_points"), "        (0..self.data.ncols()).map(move |i| Point::<NaD>::from(self.data.column(i).into_owned()))\n    }\n\n")]))
Q.append(("h-ray-lensq", "R01 R02 R03 R04", [(RC, "current_ray.norm_squared() > max_len_sq", "max_len_sq < current_ray.dot(&current_ray)")]))
Q.append(("h-ray-pushclone", "R01 R02 R03 R04", [(RC, "    let mut ray_cells = vec![];\n", ""), (RC, "        return (ray_cells, Some(end_cell));\n    }\n    ray_cells.push(origin_cell.clone());\n", "        return (vec![], Some(end_cell));\n    }\n    let mut ray_cells = vec![origin_cell.clone()];\n")]))
Q.append(("h-ray-center", "R01 R02 R03 R04", [(RC, "            let current_ray =\n                geom::converter::point_from_cell(&current_cell, &bounds.min, resolution) - origin;\n            if current_ray.norm_squared() > max_len_sq {", "            let center = geom::converter::point_from_cell(&current_cell, &bounds.min, resolution);\n            let too_far = (center - origin).norm_squared() > max_len_sq;\n            if too_far {")]))
_WH = """impl<A, NaD, NdD> GridMapN<A, NaD, NdD>
where
    A: na::Scalar,
    NaD: na::DimName,
    NdD: nd::Dimension,
    Cell<NaD>: CellToNdIndex<NaD, NdD>,
    na::DefaultAllocator: na::allocator::Allocator<A, NaD>
        + na::allocator::Allocator<f32, NaD>
        + na::allocator::Allocator<isize, NaD>,
{
%s}

impl<A, NaD, NdD> GridMap<A, NaD, NdD> for GridMapN"""
def _grow(n, body, f):
    a = "        // Cells are centered on multiples of the resolution, so"
    s = open("/repo/" + GM1).read(); i = s.index(a) if n == 2 else s.rindex(a)
    return (GM1, s[i:s.index("        // This is super helpful", i)], body.replace("@", str(n)))
Q.append(("h-grow-target", "M03 M04 M05", [_grow(n, """        let (cell_bounds, new_cell_bounds) = self.tiles_for(bounds);
        if new_cell_bounds == cell_bounds {
            return;
        }
        let new_bounds = Bounds@::from_cell_bounds(&new_cell_bounds, self.resolution);
""", 0) for n in (2, 3)] + [(GM1, "impl<A, NaD, NdD> GridMap<A, NaD, NdD> for GridMapN", _WH % """    /// The cells of the map now, and once it has grown to hold the given bounds.
    fn tiles_for(&self, bounds: &Bounds<NaD>) -> (geom::CellBounds<NaD>, geom::CellBounds<NaD>) {
        let mut requested = bounds.discretized(self.resolution, false);
        for i in 0..requested.max.len() {
            requested.max[i] += self.resolution;
        }
        let enclosing = self.bounds.enclosing(&requested);
        (
            geom::CellBounds::from_bounds(&self.bounds, self.resolution),
            geom::CellBounds::from_bounds(&enclosing, self.resolution).discretized(self.tile_size),
        )
    }
""")]))
Q.append(("h-grow-option", "M03 M04 M05", [_grow(n, """        let (cell_bounds, new_cell_bounds) = match self.grown_to(bounds) {
            Some(cells) => cells,
            None => return,
        };
        let new_bounds = Bounds@::from_cell_bounds(&new_cell_bounds, self.resolution);
""", 0) for n in (2, 3)] + [(GM1, "impl<A, NaD, NdD> GridMap<A, NaD, NdD> for GridMapN", _WH % """    fn grown_to(&self, bounds: &Bounds<NaD>) -> Option<(geom::CellBounds<NaD>, geom::CellBounds<NaD>)> {
        let mut requested = bounds.discretized(self.resolution, false);
        requested.max.coords.add_scalar_mut(self.resolution);
        let enclosing = self.bounds.enclosing(&requested);
        let after = geom::CellBounds::from_bounds(&enclosing, self.resolution).discretized(self.tile_size);
        let before = geom::CellBounds::from_bounds(&self.bounds, self.resolution);
        if after == before {
            None
        } else {
            Some((before, after))
        }
    }
""")]))
_C2 = src(GM1, "            let mut to_slice = to_data.slice_mut(nd::s![\n                offset.x..(cells_size.x + offset.x),\n                offset.y..(cells_size.y + offset.y),\n            ]);", "        }\n        self.bounds = new_bounds;")
_C3 = src(GM1, "            let mut to_slice = to_data.slice_mut(nd::s![\n                offset.x..(cells_size.x + offset.x),\n                offset.y..(cells_size.y + offset.y),\n                offset.z", "        }\n        self.bounds = new_bounds;")
Q.append(("h-grow-copy", "M03 M04 M05", [(GM1, _C2, "            copy2(&self.data, &mut to_data, &offset, &cells_size);\n"), (GM1, _C3, """            let end = offset + cells_size;
            to_data
                .slice_mut(nd::s![offset.x..end.x, offset.y..end.y, offset.z..end.z])
                .assign(&self.data.slice(nd::s![0..cells_size.x, 0..cells_size.y, 0..cells_size.z]));
"""), (GM1, "fn ndarray_with_bounds<", """fn copy2<A: na::Scalar>(
    from: &nd::Array2<A>,
    to: &mut nd::Array2<A>,
    offset: &na::VectorN<isize, na::U2>,
    size: &na::VectorN<isize, na::U2>,
) {
    let (x, y) = (offset.x, offset.y);
    let mut target = to.slice_mut(nd::s![x..x + size.x, y..y + size.y]);
    target.assign(&from.slice(nd::s![0..size.x, 0..size.y]));
}

fn ndarray_with_bounds<""")]))
Q.append(("h-grow-whole", "M03 M04 M05", [(GM1, _C2, """            let mut to_slice = to_data.slice_mut(nd::s![
                offset.x..(cells_size.x + offset.x),
                offset.y..(cells_size.y + offset.y),
            ]);
            to_slice.assign(&self.data);
""")]))
Q.append(("h-grow-replace", "M03 M04 M05", [(GM1, "        self.bounds = new_bounds;\n        self.data = to_data;\n", "        self.bounds = new_bounds;\n        std::mem::replace(&mut self.data, to_data);\n")]))
Q.append(("h-grow-zip", "M03 M04 M05", [(GM1, "            to_slice.assign(&from_slice);\n        }\n        self.bounds", "            for (to, from) in to_slice.iter_mut().zip(from_slice.iter()) {\n                *to = from.clone();\n            }\n        }\n        self.bounds")]))
Q.append(("h-grow-ndzip", "M03 M04 M05", [(GM1, "            to_slice.assign(&from_slice);\n        }\n        self.bounds", "            to_slice.zip_mut_with(&from_slice, |to, from| *to = from.clone());\n        }\n        self.bounds")]))
# --- thin spots: tiles, converters, cells, numbers, delegation, gps
DMIN = """                let remainder = (coord % (tile_size as isize)).abs();
                if remainder == 0 {
                    coord
                } else if coord < 0 {
                    coord - ((tile_size as isize) - remainder)
                } else {
                    coord - remainder
                }
"""
DMAX = """                let remainder = (coord % (tile_size as isize)).abs();
                if remainder == 0 {
                    coord
                } else if coord < 0 {
                    coord + remainder
                } else {
                    coord + ((tile_size as isize) - remainder)
                }
"""
_CT = "#[cfg(test)]\nmod tests {\n    use crate as kuba;\n\n    #[test]\n    fn from_bounds2"
def dz(name, lo, hi, more=""): Q.append((name, "G07 M04 M05", [(CB, DMIN, lo), (CB, DMAX, hi)] + ([(CB, _CT, more + _CT)] if more else [])))
dz("p-disc-rem", "                coord - coord.rem_euclid(tile_size as isize)\n", "                let tile = tile_size as isize;\n                let over = coord.rem_euclid(tile);\n                if over == 0 { coord } else { coord + (tile - over) }\n")
dz("p-disc-div", "                coord.div_euclid(tile_size as isize) * (tile_size as isize)\n", "                let tile = tile_size as isize;\n                -((-coord).div_euclid(tile) * tile)\n")
dz("p-disc-fns", "                tile_below(coord, tile_size as isize)\n", "                tile_above(coord, tile_size as isize)\n", """fn tile_below(coord: isize, tile: isize) -> isize {
    let remainder = (coord % tile).abs();
    match (remainder, coord < 0) {
        (0, _) => coord,
        (_, true) => coord + remainder - tile,
        (_, false) => coord - remainder,
    }
}

fn tile_above(coord: isize, tile: isize) -> isize {
    let remainder = (coord % tile).abs();
    match (remainder, coord < 0) {
        (0, _) => coord,
        (_, true) => coord + remainder,
        (_, false) => coord + tile - remainder,
    }
}

""")
dz("p-disc-mirror", "                tile_below(coord, tile_size as isize)\n", "                -tile_below(-coord, tile_size as isize)\n", """fn tile_below(coord: isize, tile: isize) -> isize {
    let remainder = coord % tile;
    if remainder < 0 {
        coord - remainder - tile
    } else {
        coord - remainder
    }
}

""")
Q.append(("p-cb-all", "G03 G07", [(CB, "        for (min_val, max_val) in min.iter().zip(max.iter()) {\n            assert!(*min_val <= *max_val);\n        }\n", "        assert!(min.iter().zip(max.iter()).all(|(low, high)| low <= high));\n")]))
Q.append(("p-cb-index", "G03 G07", [(CB, "        for (min_val, max_val) in min.iter().zip(max.iter()) {\n            assert!(*min_val <= *max_val);\n        }\n", "        for i in 0..NaD::dim() {\n            if min[i] > max[i] {\n                panic!(\"The minimum exceeds the maximum\");\n            }\n        }\n")]))
_FB = """        if *bounds == Bounds::<NaD>::empty() {
            return CellBounds::empty()
        }
        CellBounds {
            min: converter::cell_from_point(&bounds.min, &Point::<NaD>::origin(), resolution),
            max: converter::cell_from_point(&bounds.max, &Point::<NaD>::origin(), resolution),
        }
"""
Q.append(("p-cb-match", "G13 G08 M04", [(CB, _FB, """        let corner = |point: &Point<NaD>| {
            Cell::<NaD>::from(point.coords.map(|coord| converter::cell_coord_from_point_coord(coord, 0.0, resolution)))
        };
        match *bounds != Bounds::<NaD>::empty() {
            true => CellBounds { min: corner(&bounds.min), max: corner(&bounds.max) },
            false => CellBounds::empty(),
        }
""")]))
_PFC = """    Point::<NaD>::from(cell.coords.zip_map(&offset.coords, |coord, offset_coord| {
        point_coord_from_cell_coord(coord, offset_coord, resolution)
    }))
"""
_CFP = """    Cell::<NaD>::from(point.coords.zip_map(&offset.coords, |coord, offset_coord| {
        cell_coord_from_point_coord(coord, offset_coord, resolution)
    }))
"""
C_ = "G01 G02 G08 R03"
Q.append(("p-cv-fromfn", C_, [(CV, _PFC, "    Point::<NaD>::from(na::VectorN::<f32, NaD>::from_fn(|i, _| {\n        point_coord_from_cell_coord(cell[i], offset[i], resolution)\n    }))\n"), (CV, _CFP, "    Cell::<NaD>::from(na::VectorN::<isize, NaD>::from_fn(|i, _| {\n        cell_coord_from_point_coord(point[i], offset[i], resolution)\n    }))\n")]))
Q.append(("p-cv-loop", C_, [(CV, _PFC, "    let mut point = Point::<NaD>::origin();\n    for i in 0..NaD::dim() {\n        point[i] = offset[i] + resolution * cell[i] as f32;\n    }\n    point\n"), (CV, _CFP, "    let mut cell = Cell::<NaD>::origin();\n    for (i, coord) in cell.iter_mut().enumerate() {\n        *coord = cell_coord_from_point_coord(point[i], offset[i], resolution);\n    }\n    cell\n")]))
Q.append(("p-cv-vec", C_, [(CV, _CFP, "    let shifted = &point.coords - &offset.coords;\n    Cell::<NaD>::from(shifted.map(|coord| (coord / resolution).round() as isize))\n")]))
Q.append(("p-cv-deleg", C_, [(CV, _PFC, "    point_from_cell_n(cell, offset, &Point::<NaD>::from(na::VectorN::<f32, NaD>::repeat(resolution)))\n"), (CV, _CFP, "    cell_from_point_n(point, offset, &Point::<NaD>::from(na::VectorN::<f32, NaD>::repeat(resolution)))\n")]))
_PN = src(CV, "    Point::<NaD>::from(na::VectorN::<f32, NaD>::from_vec(", "}\n\n/// Returns the cell corresponding to the given point, using n-dim")
_CN = src(CV, "    Cell::<NaD>::from(na::VectorN::<isize, NaD>::from_vec(", "}\n")
Q.append(("p-cv-zipzip", C_, [(CV, _PN, "    Point::<NaD>::from(cell.coords.zip_zip_map(&offset.coords, &resolution.coords, |coord, from, step| {\n        point_coord_from_cell_coord(coord, from, step)\n    }))\n")]))
Q.append(("p-cv-push", C_, [(CV, _PN, "    let mut coords = Vec::with_capacity(NaD::dim());\n    for i in 0..NaD::dim() {\n        coords.push(point_coord_from_cell_coord(cell[i], offset[i], resolution[i]));\n    }\n    Point::<NaD>::from(na::VectorN::<f32, NaD>::from_vec(coords))\n")]))
Q.append(("p-cv-iter", C_, [(CV, "        cell_coord_from_point_coord(*coord, *offset_coord, *resolution_coord)", "        cell_coord_from_point_coord(*coord, *offset_coord, *resolution_coord)"), (CV, "na::VectorN::<f32, NaD>::from_vec(", "na::VectorN::<f32, NaD>::from_iterator("), (CV, ".collect::<Vec<f32>>(),", ",")]))
_IX = src(CE, "                unsafe {\n", "            }\n        }\n    )*}")
Q.append(("p-ix-loop", "M01 M02 M03 M04", [(CE, _IX, "                let mut index = [0usize; $len];\n                for i in 0..$len {\n                    index[i] = self[i] as usize;\n                }\n                nd::Dim(index)\n")]))
Q.append(("p-ix-zip", "M01 M02 M03 M04", [(CE, _IX, "                let mut index = [0usize; $len];\n                for (to, from) in index.iter_mut().zip(self.iter()) {\n                    *to = *from as usize;\n                }\n                nd::Dim(index)\n")]))
_SG = src(MA, "    if value == 0.0 {", "}\n\npub fn logodds")
Q.append(("p-sg-match", "S02 R01", [(MA, _SG, "    match value {\n        v if v == 0.0 => 0.0,\n        v if v > 0.0 => 1.0,\n        _ => -1.0,\n    }\n")]))
Q.append(("p-sg-order", "S02 R01", [(MA, _SG, "    if value > 0.0 {\n        1.0\n    } else if value == 0.0 {\n        0.0\n    } else {\n        -1.0\n    }\n")]))
Q.append(("p-sg-std", "S02 R01", [(MA, _SG, "    if value == 0.0 {\n        0.0\n    } else {\n        value.signum()\n    }\n")]))
Q.append(("p-sg-cmp", "S02 R01", [(MA, _SG, "    match value.partial_cmp(&0.0) {\n        Some(std::cmp::Ordering::Equal) => 0.0,\n        Some(std::cmp::Ordering::Greater) => 1.0,\n        _ => -1.0,\n    }\n")]))
Q.append(("p-lo-odds", "S01 N05", [(MA, "    (probability / (1.0 - probability)).ln()\n", "    let complement = 1.0 - probability;\n    let odds = probability / complement;\n    f32::ln(odds)\n"), (MA, "    1.0 - (1.0 / (1.0 + logodds.exp()))\n", "    let odds = logodds.exp();\n    1.0 - (odds + 1.0).recip()\n")]))
Q.append(("p-og-ufcs", "M09 M02 M06", [(OG, "        self.grid_map.bounds.clone()", "        GridMap::bounds(&self.grid_map)"), (OG, "        self.grid_map.resolution\n", "        self.grid_map.resolution()\n"), (OG, "        self.grid_map.get(cell)", "        GridMap::get(&self.grid_map, cell)")]))
Q.append(("p-og-new", "M02 M09 N06", [(OG, """        OccupancyGridMapN {
            grid_map: GridMapN::new(
                resolution,
                Bounds::empty(),
                tile_size,
                noise_model.default_cell_value(),
            ),
            noise_model: noise_model,
        }
""", """        let unknown = noise_model.default_cell_value();
        let grid_map = GridMapN::new(resolution, Bounds::empty(), tile_size, unknown);
        Self { noise_model, grid_map }
""")]))
Q.append(("p-og-default", "M02 M09 N06", [(OG, """        Self::new(
            NM::default_noise_model(),
            grid_map::DEFAULT_RESOLUTION,
            grid_map::DEFAULT_TILE_SIZE,
        )
""", """        let model = NM::default_noise_model();
        let (resolution, tile_size) = (grid_map::DEFAULT_RESOLUTION, grid_map::DEFAULT_TILE_SIZE);
        Self::new(model, resolution, tile_size)
""")]))
OX = "src/kitti/oxt_reader.rs"; K_ = "K01 K06 K07"
_GM = src(OX, "    let dlat = gps_point", "}\n\npub fn read(")
Q.append(("p-gps-diff", K_, [(OX, _GM, """    let d = gps_point.vector - gps_origin.vector;
    let lat_circumference = gps_origin.vector.x.to_radians().cos() * EARTH_EQUATOR_CIRCUMFERENCE;
    na::Translation3::<f32>::new(
        (d.y * lat_circumference / 360.0) as f32,
        (d.x * EARTH_POLE_CIRCUMFERENCE / 360.0) as f32,
        d.z as f32,
    )
""")]))
Q.append(("p-gps-fn", K_, [(OX, _GM, """    let arc = |degrees: f64, circumference: f64| (degrees * circumference / 360.0) as f32;
    let (here, there) = (&gps_origin.vector, &gps_point.vector);
    let east = arc(there[1] - here[1], EARTH_EQUATOR_CIRCUMFERENCE * here[0].to_radians().cos());
    let north = arc(there[0] - here[0], EARTH_POLE_CIRCUMFERENCE);
    na::Translation3::<f32>::new(east, north, (there[2] - here[2]) as f32)
""")]))
Q.append(("p-gps-from", K_, [(OX, _GM, _GM.replace("na::Translation3::<f32>::new(", "na::Translation3::<f32>::from(na::Vector3::new(").replace("as f32,\n    )", "as f32,\n    ))"))]))
_SF = src(OX, "    match string.parse::<F>() {", "}\n\n/// Converts")
Q.append(("p-sf-maperr", K_, [(OX, _SF, "    string\n        .parse::<F>()\n        .map_err(|_| std::io::Error::new(std::io::ErrorKind::InvalidData, \"Invalid float\"))\n")]))
Q.append(("p-sf-iflet", K_, [(OX, _SF, "    if let Ok(val) = string.parse() {\n        return Ok(val);\n    }\n    Err(std::io::Error::new(std::io::ErrorKind::InvalidData, \"Invalid float\"))\n")]))
Q.append(("p-ox-errlate", K_, [(OX, """    let err = Err(std::io::Error::new(
        std::io::ErrorKind::InvalidData,
        "Invalid data length",
    ));
    if str_values.len() < 6 {
        return err;
    }
""", """    if str_values.len() < 6 {
        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Invalid data length"));
    }
""")]))
Q.append(("p-ox-char", K_, [(OX, "buffer.split(\" \").collect::<Vec<&str>>()", "buffer.split(' ').collect::<Vec<_>>()")]))
_OG = src(OX, "    if let Some(gps_origin) = gps_origin {", "}\n\npub fn read_from_file")
Q.append(("p-ox-match", K_ + " K05", [(OX, _OG, """    let (translation, origin) = match gps_origin {
        None => (na::Translation3::<f32>::identity(), gps_point),
        Some(origin) => (gps_to_meters(&gps_point, &origin), origin),
    };
    Ok((Pose3::from_parts(translation, rotation), origin))
""")]))
Q.append(("p-ox-ref", K_ + " K05", [(OX, _OG, """    let translation = gps_origin
        .as_ref()
        .map(|origin| gps_to_meters(&gps_point, origin))
        .unwrap_or_else(|| na::Translation3::<f32>::new(0.0, 0.0, 0.0));
    Ok((Pose3::from_parts(translation, rotation), gps_origin.unwrap_or(gps_point)))
""")]))
_ON = src(OX, "    let gps_point = na::Translation3::<f64>::new(", "    let rotation")
Q.append(("p-ox-array", K_, [(OX, _ON, """    let mut position = [0.0f64; 3];
    for i in 0..3 {
        position[i] = str_to_float::<f64>(str_values[i])?;
    }
    let gps_point = na::Translation3::<f64>::new(position[0], position[1], position[2]);
""")]))
Q.append(("p-ox-closure", K_, [(OX, _ON, """    let degrees = |i: usize| str_to_float::<f64>(str_values[i]);
    let gps_point = na::Translation3::<f64>::new(degrees(0)?, degrees(1)?, degrees(2)?);
""")]))
Q.append(("p-ox-pattern", K_, [(OX, """    let err = Err(std::io::Error::new(
        std::io::ErrorKind::InvalidData,
        "Invalid data length",
    ));
    if str_values.len() < 6 {
        return err;
    }
""", """    let str_values = match str_values.get(0..6) {
        Some(fields) => fields,
        None => return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Invalid data length")),
    };
""")]))
