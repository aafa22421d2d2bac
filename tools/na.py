"Properties this family cannot decide, with the reason."
NA = {}
