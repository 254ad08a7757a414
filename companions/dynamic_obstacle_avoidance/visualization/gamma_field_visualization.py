def gamma_field_visualization(*args, **kwargs):
    return None


gamma_field_multihull = gamma_field_visualization
gamma_field_room_with_obstacles = gamma_field_visualization
