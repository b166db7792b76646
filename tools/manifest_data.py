# id -> (technique override or '', note)
_V = 'Python executed symbolically from its bytecode, Cython source translated with C semantics; '
NOTES['C01'] = ('', _V + 'every ordering of all symbolic cells of the listed rasters; float values as exact reals (the code only compares and copies them)')
NOTES['C02'] = ('', _V + 'fill sweeps in exact real arithmetic with symbolic drops; safe drops bit-precise in IEEE arithmetic')
NOTES['C03'] = ('', _V + 'the DEM tool and the depths command run on stub raster readers/writers over symbolic rasters')
NOTES['C04'] = ('', _V + 'each raster shape with all cells symbolic; slopes compared exactly, ties within rounding accepted')
NOTES['C05'] = ('', _V + 'composition: no-flats fill spec -> D8 -> path following, on symbolic rasters')
NOTES['C06'] = ('', _V + 'all acyclic direction rasters of the listed shapes at once (symbolic directions)')
NOTES['C07'] = ('', _V + 'symbolic directions and labels of every integer dtype and unlabelled value')
NOTES['C08'] = ('', _V + 'symbolic data and labels; real sums, native replay of counterexamples')
NOTES['C09'] = ('', _V + 'symbolic wet/dry rasters, symbolic filter verdicts per region')
NA['C26'] = 'the round trip is performed by OGR drivers (compiled GDAL library, files on disk); malstroem only passes GeoJSON dictionaries through, there is no malstroem code whose symbolic execution would decide it'
NA['C27'] = 'polygonisation is done by gdal.Polygonize, a compiled library whose source is not present; nothing of it can be encoded'
NOTES['C10'] = ('', _V + 'filter text built structurally with symbolic bluespot statistics; rejection decided for texts of symbolic characters')
NOTES['C11'] = ('', _V + 'attribute assembly over all reals; pourpts command and BluespotTool on symbolic labels, depths, accumulated flow or DEM with stub readers / writers')
NOTES['C12'] = ('', _V + 'links decided for symbolic labels and directions; junction networks by path-wise symbolic execution over symbolic directions')
NOTES['C13'] = ('', _V + 'path-wise symbolic execution of the stream tool over symbolic directions')
NOTES['C14'] = ('', _V + 'path-wise over topologies and zero capacities, volumes and capacities symbolic reals')
NOTES['C15'] = ('', _V + 'symbolic labels and precipitation; exact reals, conversion constants up to 1e-9 relative')
NOTES['C16'] = ('', _V + 'symbolic terrain, labels and resolution; histogram bounds also in IEEE arithmetic where decidable')
NOTES['C17'] = ('', _V + 'symbolic histograms, volumes and capacities as exact reals')
NOTES['C18'] = ('', _V + 'symbolic labels, levels and terrain; commands run on stub readers / writers')
NOTES['C21'] = ('', _V + 'symbolic cells (NaN included), nodata value and substitute; GDAL replaced by a stand-in')
NOTES['C23'] = ('', _V + 'path-wise symbolic execution of both command sequences in one run; rain and elevations symbolic')
NOTES['C24'] = ('', _V + 'symbolic geotransforms through every command; calls to GDAL / OGR recorded by stand-ins')
NOTES['C25'] = ('', _V + 'state of the output path as symbolic booleans')
NOTES['C22'] = ('', _V + 'exact integers and bit-precise IEEE floats up to 80 bits; GDAL replaced by a stand-in')
NOTES['C19'] = ('', _V + 'both versions run on the same symbolic input in one execution; every enable / disable history up to a length')
NOTES['C20'] = ('', _V + 'every array access, C integer operation and C variable of the compiled functions is a proof obligation')
