def hex_to_rgba_float(hex_color):
    hex_color = hex_color.lstrip("#")
    vals = [int(hex_color[ii : ii + 2], 16) / 255.0 for ii in range(0, len(hex_color), 2)]
    return vals if len(vals) == 4 else vals + [1.0]
