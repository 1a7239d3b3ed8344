from props_lib import P, not_applicable

F, T, PT = "index/s2idx.go", "index/s2timeidx.go", "index/s2pointidx.go"
ALL = [F, T, PT, "index/tools.go"]
GD = ["index/geodata/tools.go", "index/geodata/loop.go"]
KEY = ("index keys", "prefix, cell, (inverted time,) id; nothing else is kept", "index/*.go itob, valuesToKey, PointKey")

P("I01", "A flat index lookup gives exactly the ids whose geometry touches the cell",
  "GeoIdsAtCell of the flat index returns, for a valid cell of the index's level, exactly the ids indexed with a geometry whose covering includes that cell, each as often as it was indexed there under a distinct id, whatever the ids, prefixes and neighbouring cells, at every index level. A cell of another level is refused with an error. Ids are returned byte for byte, and stay what they are while later lookups and writes happen.",
  ["inputs", "histories"], "every placement of the cells, every id and prefix, every looked up cell",
  "The tests index a handful of real places; what fails are boundary cells, ids and prefixes that look like key bytes, the last cell of a face, and buffers reused by iterators.",
  [F, "index/tools.go", "index/geodata/tools.go"], [KEY], [("range scan over prefix and cell", "index/s2idx.go GeoIdsAtCell"), ("key decoding", "index/s2idx.go keyToValues")], ["S2FlatIdx.GeoIndex", "S2FlatIdx.GeoIdsAtCell"])

P("I02", "A point index lookup gives exactly the ids of the points in the cell",
  "GeoIdsAtCell of the point index returns, for every valid cell of any level, exactly the ids of the points that were indexed and lie in that cell, in particular those in its first and in its last leaf cell, whatever the ids and prefixes.",
  ["inputs", "histories"], "every placement of the points, every cell of the levels in the bounds, every id and prefix",
  "The tests look up one cell with points in its middle; what fails are the ends of the cell's range and the last cell of a face.",
  [PT, "index/tools.go"], [KEY], [("range scan over the leaf cells of a cell", "index/s2pointidx.go GeoIdsAtCell")], ["S2PointIdx.PointIndex", "S2PointIdx.GeoPointIndex", "S2PointIdx.GeoIdsAtCell"])

P("I03", "A time index lookup gives exactly what is there in the period, newest first",
  "GeoTimeIdsAtCell returns, for a valid cell of the index's level, exactly the ids indexed with a geometry that touches the cell at an instant in the period, which goes back from the newer end `from` (inclusive) to the older end `to` (exclusive), newest first, for instants before and after 1970 alike. A cell of another level is refused with an error.",
  ["inputs", "histories"], "every pair of instants that int64 nanoseconds can hold, every period, cell and id",
  "The tests use a few instants around the present; what fails are the boundaries of the period, instants before the epoch and ids that look like times.",
  [T, "index/tools.go"], [KEY], [("inverted time in the key", "index/s2timeidx.go timePrefixKey"), ("range scan", "index/s2timeidx.go GeoTimeIdsAtCell")], ["S2FlatTimeIdx.GeoTimeIndex", "S2FlatTimeIdx.GeoTimeIdsAtCell"])

P("I04", "Looking up several cells gives the union, every id once",
  "GeoIdsAtCells of the flat and the point index and GeoTimeIdsAtCells return exactly the ids that the single lookups of the cells give, every id once, for every list of cells: empty, with repeated cells, with overlapping ones. When one of the cells cannot be looked up the whole query fails.",
  ["inputs", "histories"], "every list of cells and every placement within the bounds",
  "The tests look up one fixed list of distinct cells.",
  ALL, [KEY], [("deduplication of ids", "index/*.go GeoIdsAtCells, GeoTimeIdsAtCells")], ["S2FlatIdx.GeoIdsAtCells", "S2PointIdx.GeoIdsAtCells", "S2FlatTimeIdx.GeoTimeIdsAtCells"])

P("I05", "Flat and time area queries give the ids in the covering cells of the area",
  "The radius and rectangle queries of the flat and the time index cover the circle around the given position with the given radius in metres, respectively the rectangle with the given corners, with cells of the index's level, and return exactly the ids (in the period asked for) indexed in one of these cells, every id once.",
  ["inputs", "histories"], "every position, every covering and every placement of objects within the bounds",
  "The tests run one query around one place.",
  ALL, [KEY], [("radius to area", "index/tools.go s2RadialAreaMeters"), ("covering at the index's level", "index/s2idx.go GeoIdsRadiusQuery, index/s2timeidx.go GeoTimeIdsRadiusQuery, GeoTimeIdsRectQuery")], ["S2FlatIdx.GeoIdsRadiusQuery", "S2FlatTimeIdx.GeoTimeIdsRadiusQuery", "S2FlatTimeIdx.GeoTimeIdsRectQuery"])

P("I06", "Area queries of the point index give exactly the points inside",
  "The radius and rectangle queries of the point index return exactly the ids of the indexed points whose cell lies in the covering of the area and whose position the circle, respectively the rectangle, contains, every id once: no point inside is missed, and points that only share a covering cell with the area are left out.",
  ["inputs", "histories"], "every position, every covering, every placement of points and every decision which points are inside",
  "The tests run one query around one place.",
  [PT, "index/tools.go"], [KEY], [("filter by the position of the point", "index/s2pointidx.go GeoIdsRadiusQuery, GeoIdsRectQuery")], ["S2PointIdx.GeoIdsRadiusQuery", "S2PointIdx.GeoIdsRectQuery"])

P("I07", "Indexes with different prefixes in one store do not see each other",
  "With one store shared by several indexes of any kind whose prefixes are not prefixes of each other, every query of an index answers as if it were alone: nothing indexed by another one is found, and nothing of its own is lost. A foreign entry below its prefix that is too short to be one of its keys is never taken for one: it is left out, or the lookup fails with an error.",
  ["inputs", "histories"], "every pair of prefixes, ids and cells within the bounds, all three kinds of index",
  "Tests use one index per store.",
  ALL, [KEY], [("prefix of every key and range", "index/*.go")], ["S2FlatIdx", "S2PointIdx", "S2FlatTimeIdx"])

P("I08", "Indexing is all or nothing, and failures are reported",
  "GeoIndex, GeoTimeIndex, PointIndex and GeoPointIndex store an object under all of its cells with one batch, or return an error and store nothing: when the store cannot give a writer or fails to write, when the geometry is malformed, missing or has no covering, when the point index is given something else than a point. Batches are given back.",
  ["fault_sequences", "inputs"], "every geometry within the bounds and every single failing call of the store",
  "No test makes the store fail.",
  ALL, [KEY], [("one batch per object", "index/s2idx.go GeoIndex, index/s2timeidx.go GeoTimeIndex"), ("error propagation", "index/s2pointidx.go PointIndex, GeoPointKey")], ["S2FlatIdx.GeoIndex", "S2FlatTimeIdx.GeoTimeIndex", "S2PointIdx.PointIndex", "S2PointIdx.GeoPointIndex"])

P("I09", "Queries give back what they take from the store and report failed reads",
  "After every query of an index, successful or not, every reader and iterator it took from the store has been closed. A query that cannot read the store, or meets a key of its range that is no index key, fails with an error instead of giving a partial answer or panicking.",
  ["fault_sequences", "inputs"], "every query, every single failing call of the store, one arbitrary foreign key",
  "No test makes the store fail or counts open readers.",
  ALL, [("open readers and iterators", "what the store has handed out", "index/*.go")], [("deferred close", "index/*.go GeoIdsAtCell, GeoTimeIdsAtCell, GeoIdsRadiusQuery, GeoIdsRectQuery"), ("key decoding", "index/*.go keyToValues")], ["KVStore.Reader", "KVReader.Close", "KVIterator.Close"])

P("I10", "The key of a point is the one it is stored under",
  "PointKey, GeoPointKey, PointIndex and GeoPointIndex give the same key for the same position and id; the point is stored under exactly that key, keys of different ids or leaf cells differ, and deleting the key from the store removes that point and no other from every query. What is no point, or has no position, has no key and is refused with an error.",
  ["inputs", "histories"], "every position, id and prefix within the bounds",
  "Tests never delete a point.",
  [PT], [KEY], [("key of a point", "index/s2pointidx.go PointKey")], ["S2PointIdx.PointKey", "S2PointIdx.GeoPointKey", "KVBatch.Delete"])

P("G01", "Points and lines are covered at the levels asked for, by their own positions",
  "The covering of a point is the one cell of the coverer's minimum level that contains its position (levels outside 0 to 30 count as the nearest level). The covering of a line is the coverer's covering, honouring its minimum and maximum level, of the line through all its positions in order, with longitude and latitude taken as stored; an interior covering asks for the interior covering.",
  ["inputs"], "every position, and lines of every number of positions within the bounds",
  "Tests cover a few real geometries.",
  GD, [], [("covering", "index/geodata/tools.go geoDataCoverCellUnion")], ["GeoData.Cover", "GeoData.InteriorCover", "GeoDataToCoverCellUnion"])

P("G02", "Polygons are covered on their inside, at the levels asked for, unchanged",
  "The covering of a polygon is the coverer's covering of the smaller of the two sides of its outline, whether the outline is given clockwise or counter-clockwise, open or closed, convex or concave, and wherever it lies relative to the origin of the sphere; that of a multipolygon is the union of those of all its polygons. The geometry is the same afterwards, so that covering it again gives the same.",
  ["inputs"], "every outline of up to the bounded number of vertices, every orientation and starting vertex, every answer of the geometric predicates that is possible for a simple outline",
  "Tests cover convex outlines in one orientation.",
  GD, [], [("outline to loop", "index/geodata/loop.go LoopFromCoordinatesAndCCW"), ("covering", "index/geodata/tools.go coverPolygon")], ["GeoData.Cover", "GeoData.InteriorCover"])

P("G03", "Malformed geometries are refused, never covered or a crash",
  "Covering, bounding, converting and exporting a GeoData never panics, whatever its type and coordinates: missing geometry, no or an odd number of coordinates, too few vertices, degenerate outlines, missing members. Cover and InteriorCover succeed if and only if the geometry is well formed; what has no geometry is refused by every function.",
  ["inputs"], "every type with every number of coordinates within the bounds",
  "Tests pass well-formed geometries only.",
  GD, [], [("validation", "index/geodata/tools.go geoDataCoverCellUnion, coverPolygon, GeoDataToRect, GeoDataToGeom")], ["GeoData.Cover", "GeoDataToRect", "GeoDataToGeom", "ToGeoJSONFeatureCollection", "PointsToGeoJSONPolyLines"])

P("G04", "The bounds of a geometry are those of its line or outline",
  "GeoDataToRect returns the bounding rectangle of the line through all positions of a line, in order, or of the outline of a counter-clockwise polygon, open or closed, with longitude and latitude taken as stored; every other geometry is refused with an error.",
  ["inputs"], "every geometry of up to the bounded number of positions",
  "Tests bound one polygon and one line.",
  GD, [], [("bounds", "index/geodata/tools.go GeoDataToRect")], ["GeoDataToRect"])

P("G05", "Conversion between geometries keeps type, positions and order",
  "GeomToGeoData keeps the type and the longitude and latitude of every position of the point, line or outline (inner rings and further dimensions are left out) and of every polygon of a multipolygon, in order; GeoDataToGeom gives them back; the result shares no memory with what it was made from in a way that a later change shows. Unsupported types are refused with an error, never turned into something else.",
  ["inputs"], "every layout and every number of positions within the bounds",
  "Tests convert two-dimensional geometries without inner rings.",
  GD, [], [("conversion", "index/geodata/tools.go GeomToGeoData, GeoDataToGeom, xyCoords")], ["GeomToGeoData", "GeoDataToGeom", "GeoJSONFeatureToGeoData"])

P("G06", "Properties survive the way from GeoJSON and back",
  "PropertiesToGeoData keeps every property of a feature that is a number, a string or a boolean under its name and value, beside properties that are already there; PropertiesToJSONMap gives them back with the same values. A property of another kind is reported and then nothing is changed; null properties are left out, none are made up.",
  ["inputs"], "every value of every type, beside existing properties",
  "Tests convert one property of each kind.",
  GD, [], [("properties", "index/geodata/tools.go PropertiesToGeoData, PropertiesToJSONMap")], ["PropertiesToGeoData", "PropertiesToJSONMap"])

P("G07", "GeoJSON export has every geometry once, in order, with its properties",
  "ToGeoJSONFeatureCollection writes one feature per GeoData, in order, with its type, positions and properties; PointsToGeoJSONPolyLines writes one line through the given points in order, with the properties of the first, and refuses anything but points. Failures to encode are returned, and the arguments stay as they are.",
  ["inputs"], "every list of geometries within the bounds",
  "Tests export one fixed list.",
  GD, [], [("export", "index/geodata/tools.go ToGeoJSONFeatureCollection, PointsToGeoJSONPolyLines")], ["ToGeoJSONFeatureCollection", "PointsToGeoJSONPolyLines"])

P("T01", "The union of cell unions has every cell once, in order",
  "CellUnionUnion returns every cell of every given cell union exactly once, at its own level (cells are not merged), ascending by cell id, and nothing else; the arguments stay as they are.",
  ["inputs"], "every cell id and every number of cells and unions within the bounds",
  "Tests use one pair of unions.",
  ["s2tools/cellunion.go"], [], [("union", "s2tools/cellunion.go CellUnionUnion")], ["CellUnionUnion"])

P("T02", "Missing cells are exactly those one union has more often than the other",
  "CellUnionMissing(from, to) returns the cells of `from` that `to` does not have, in the order of `from`, counting repeated cells: a cell is missing as often as `from` has it more often than `to`. The arguments stay as they are.",
  ["inputs"], "every cell id and every number of cells within the bounds",
  "Tests use one pair of unions without repeated cells.",
  ["s2tools/cellunion.go"], [], [("difference", "s2tools/cellunion.go CellUnionMissing")], ["CellUnionMissing"])

P("T03", "Cell ids are parsed from paths, tokens and numbers, anything else is refused",
  "ParseCellID returns the cell of a path such as 2/3210 (face 0 to 5, children 0 to 3, at most 30 of them), of a hexadecimal token of up to 16 digits, and of a decimal number of more than 16 digits that fits 64 bits; for every other string it returns nil. No string makes it panic.",
  ["inputs"], "every string of up to the bounded length, paths of every depth, tokens and numbers of every length",
  "Tests parse three strings.",
  ["s2tools/parse.go"], [], [("parsing", "s2tools/parse.go ParseCellID")], ["ParseCellID"])

P("T04", "Cells are displayed as their own outlines, with their ids and level",
  "CellUnionToGeoJSON writes one polygon feature per cell, in order and without leaving out any: the closed ring of the cell's four corners as longitude and latitude in degrees, with the cell's token as id, its decimal number as uid, its path as str and its level as level. CellUnionToTokens returns the tokens of the cells in order. Tokens are read back as the same cells.",
  ["inputs"], "cells of the levels in the bounds with symbolic face and path bits",
  "Tests display one union without looking at the result.",
  ["s2tools/geojsoncells.go"], [], [("display", "s2tools/geojsoncells.go CellUnionToGeoJSON"), ("tokens", "s2tools/geojsoncells.go CellUnionToTokens")], ["CellUnionToGeoJSON", "CellUnionToTokens"])

P("T05", "The HTTP handlers answer with the cells asked for or refuse the request",
  "S2CellQueryHandler answers the GeoJSON of exactly the cells whose tokens the cells parameter lists, in order, and GeoJSONToCellHandler the covering of the one feature in the body with the minimum level, maximum level and number of cells of its URL, as application/json. A request with a token that is no valid cell, a parameter that is no number of digits, a body that is no GeoJSON, another number of features than one, or a geometry that cannot be covered is answered with status 400 and no cells. No request makes a handler panic.",
  ["inputs"], "every parameter text and token of the bounded length, every number and kind of features, every covering within the bounds",
  "Tests send one good request.",
  ["s2tools/handlers.go", "s2tools/geojsoncells.go"], [], [("parameters", "s2tools/handlers.go GeoJSONToCellHandler, S2CellQueryHandler")], ["http.ResponseWriter"])

P("X01", "GeoData survives being stored as protocol buffers",
  "Marshalling a GeoData and unmarshalling the bytes gives the same geometry and properties.",
  ["inputs"], "every GeoData",
  "Tests marshal a few values.",
  ["index/geodata/geodata.pb.go"], [], [("generated messages", "index/geodata/geodata.pb.go")], ["proto.Marshal", "proto.Unmarshal"])
not_applicable("X01", "The generated code only declares struct tags; encoding and decoding is done by the reflection of github.com/golang/protobuf, outside the repository, which the SSA interpreter does not encode (reflect, unsafe).")

P("X02", "The map debugger serves the handlers under their paths",
  "The mapdebugger command serves the cell query handler under exactly /api/s2cells, and for POST requests the covering handler under exactly /api/geojson/{min_level}/{max_level}/{max_cells}, each a number of decimal digits that the handler is given as that parameter. Requests with another path, or with another method for the covering handler, reach neither handler and are not answered with success.",
  ["inputs"], "every path segment and path of the bounded length, every path one byte away from a served one, every method of a list",
  "The command has no tests.",
  ["cmd/mapdebugger/main.go"], [], [("routes", "cmd/mapdebugger/main.go")], ["main"])
