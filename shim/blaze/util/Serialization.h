// serialization is not modelled
