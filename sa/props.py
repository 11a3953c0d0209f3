import props_geom, props_map, props_ray, props_cloud, props_types, props_world, props_read, props_viz
