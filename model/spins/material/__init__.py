from spins.material.material import Air, Material, Si, SiO2, Si3N4, CustomMaterial
