#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one source (this file)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = "hrosailing/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, note="", tech=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text,
                  why=why, files=[H + f for f in files],
                  mech=[dict(name=n, where=H + w) for n, w in mech],
                  observe=observe or [], note=note, tech=tech))


prop("C01", "Measurement data behaves as a table of equally long columns",
     "After any sequence of updates, extensions, fills, renames, column and row deletions, strips, type filters, slices, masks and concatenations, the measurement container holds exactly the cells a plain table would hold, with missing cells None. Row count, row iteration, row and column access, type queries and the numerical view always describe that same table. Columns never mix types, and neither the caller's lists nor a table derived from another share later changes; paired weights stay with their points.",
     ["histories", "inputs"],
     "every operation sequence up to depth 3 (4 in the thorough tier) over ~33 concrete operations from several starting tables, every boolean mask / row deletion set and None pattern of small tables",
     "The container has no test of its own; the tests reach it through a handful of pipeline inputs, never through chains of operations.",
     ["core/data.py"], [("update / extend / fill bookkeeping", "core/data.py:Data"), ("pairing of weights and points", "core/data.py:WeightedPoints")],
     ["Data.keys/rows/numerical/get_by_type/n_rows", "WeightedPoints.data/weights"])

prop("C02", "Standard format keeps every value under the standard names",
     "Bringing measurement data into the standard format renames each column whose name, ignoring case, separators and a plural s, is a known synonym to the standard term, keeps other names, and resolves collisions with a numbered control-value name so that no column or value is lost. Date and time columns become one datetime column row by row, and columns of ints, numeric strings, decimals or numpy numbers become floats while others stay unchanged. Repeating the operation changes nothing further.",
     ["inputs", "configurations"],
     "every known synonym x separator x letter case x plural variant, every ordered pair/triple of colliding names, every column type, every None pattern of date/time columns",
     "Tests format a few fixed column names; collisions, ordering and all synonym spellings are not sampled.",
     ["core/data.py", "core/constants.py"], [("standard key lookup and collision handling", "core/data.py:Data.hrosailing_standard_format"), ("synonym table", "core/constants.py:KEYSYNONYMS")],
     ["Data.keys and columns after hrosailing_standard_format"])

prop("C03", "True and apparent wind conversions are mutually inverse",
     "For every non-negative wind speed, angle and boat speed whose converted wind does not vanish, the conversions satisfy the wind triangle (apparent wind = true wind plus head wind of the boat's speed), converting to apparent and back (or the reverse) restores the wind, the boat speed is passed through and the wind stays on the same side of the boat with its angle in [0, 360). The result of each row is independent of the other rows, of the container and number type used, and the given measurements are left unmodified.",
     ["inputs"],
     "full grid of wind speeds x angles (incl. 0, 180, 360, negative and > 360) x boat speeds, every ordering/stacking of rows up to size 3, list/array/int/float containers",
     "Tests convert three fixed points in one direction.",
     ["core/computing.py"], [("vector triangle", "core/computing.py:convert_apparent_wind_to_true"), ("vector triangle", "core/computing.py:convert_true_wind_to_apparent")],
     ["return values of the two conversions"])

prop("C04", "Interpolators honour data points, bounds and their formulas",
     "Each interpolator applied to a neighbourhood of weighted points returns the value at a point that coincides with the query, stays between the smallest and largest neighbouring value when it is an averaging method, and equals the value its documented formula prescribes. The result does not depend on the order of the points, on what was interpolated before with the same object, nor does it modify the given points. Table interpolation is exact at and between grid nodes (bilinear) and is refused outside the grid.",
     ["inputs", "histories", "configurations"],
     "all subsets of a small point set in every order x query points x interpolator parameters x norms x weights; sequences of two queries per object; all cells of small grids incl. borders and outside points",
     "Tests check two or three hand-computed values per interpolator; order, coincidence, reuse and bounds are universally quantified.",
     ["processing/interpolator.py"], [("averaging formulas", "processing/interpolator.py"), ("grid interpolation", "processing/interpolator.py:GridInterpolator")],
     ["Interpolator.interpolate return value"])

prop("C05", "Neighbourhoods select exactly the points their definition names",
     "For every point set and every parameter, a neighbourhood reports as members exactly the points satisfying its definition: within the radius (ball), within the data-dependent scaled radius, inside the cuboid box, inside the polytope, or all points. Membership of a point does not depend on the order of the points, on earlier queries with the same object, or on the query's container, and the points are left unmodified.",
     ["inputs", "histories", "configurations"],
     "all subsets/orders of lattice point sets x radii/sizes/half-space systems x norms; pairs of queries on one object",
     "Tests look at single fixed arrays; boundary points, orders and reuse are not covered.",
     ["processing/neighbourhood.py"], [("membership predicates", "processing/neighbourhood.py")],
     ["Neighbourhood.is_contained_in"])

prop("C06", "A polar diagram table returns and changes exactly the addressed cells",
     "A table built from resolutions and boat speeds, in any order of the angles and with angles given modulo 360, stores each boat speed at its wind speed and angle; changing entries at any subset of wind speeds and angles, in any order, sets exactly those cells to the values given for them and leaves all others alone, and invalid addresses or shapes are rejected without effect. Evaluating the table yields the stored speed at a grid point, stays between the smallest and largest entry elsewhere and is periodic in the angle. Arrays passed in or handed out are not modified by and do not modify the table.",
     ["histories", "inputs", "configurations"],
     "every sequence of up to 3 change operations over all index subsets/orders of small tables and the default-size table, all construction orders, all grid and mid-grid queries with angle shifts by multiples of 360",
     "Tests change one fixed set of cells and evaluate a few points.",
     ["polardiagram/_polardiagramtable.py"], [("cell addressing", "polardiagram/_polardiagramtable.py:PolarDiagramTable.change_entries"), ("evaluation", "polardiagram/_polardiagramtable.py:PolarDiagramTable.__call__")],
     ["PolarDiagramTable.boat_speeds / __getitem__ / __call__"])

prop("C07", "A point cloud diagram keeps exactly the points it was given",
     "After construction and any sequence of point additions the cloud holds exactly the given points, in order, with angles reduced modulo 360 and exactly the wind speeds occurring in them; points with negative wind speed are left out at construction and refused, without effect, when added. Looking up a recorded wind returns its boat speed, slices at a wind speed contain exactly the points recorded within the accepted range of it, and evaluating at any positive wind speed returns the interpolation of its neighbourhood, hence a value between recorded speeds for averaging interpolators. Arrays passed in are not modified.",
     ["histories", "inputs"],
     "every sequence of up to 3 additions from a small alphabet of batches, every query on the recorded points, slice ranges, evaluations over a wind grid",
     "Tests add one fixed batch and evaluate a single point.",
     ["polardiagram/_polardiagrampointcloud.py"], [("point storage", "polardiagram/_polardiagrampointcloud.py:PolarDiagramPointcloud")],
     ["points / wind_speeds / __getitem__ / __call__ / get_slices"])

prop("C08", "Curve and multi-sail diagrams evaluate to their function / best sail",
     "A curve diagram evaluates to its model function with its parameters (at angles in degrees or, if so configured, radians, both periodic) for every scalar or array of winds, element by element. A multi-sail diagram evaluates, for every wind, to the maximum over its sails of the speed each sail gives there. Its slices are the slices of its sails put together, without losing or inventing points, and name for each point the sail it came from, in whatever order the sails were given.",
     ["inputs", "configurations"],
     "all library model functions x parameter choices x wind grids; every ordered selection of up to 3 sails of mixed kinds, every slice wind speed",
     "Tests cover one example of each.",
     ["polardiagram/_polardiagramcurve.py", "polardiagram/_polardiagrammultisails.py", "core/modelfunctions/_models2d.py"], [("maximum over sails", "polardiagram/_polardiagrammultisails.py:PolarDiagramMultiSails.__call__"), ("curve evaluation", "polardiagram/_polardiagramcurve.py:PolarDiagramCurve.__call__")],
     ["__call__", "get_slices(full_info=True)"])

prop("C09", "Symmetrizing mirrors a diagram without changing its data",
     "Symmetrizing any polar diagram yields a diagram of the same kind whose speeds at an angle and at 360 degrees minus that angle agree and equal the original ones for tables and clouds recorded on one side only, and the average of both sides for curves. Symmetrizing a symmetric diagram again does not change its values, sails keep their names, and the original diagram is left unmodified.",
     ["inputs", "configurations"],
     "all subsets of an angle lattice (one-sided, two-sided, symmetric, asymmetric, with/without 0, 180) x wind speeds for tables and clouds; curves in degrees and radians; combinations of sails",
     "Tests symmetrize one example per kind.",
     ["polardiagram"], [("mirroring", "polardiagram/_polardiagramtable.py:PolarDiagramTable.symmetrize")],
     ["symmetrize()"])

prop("C10", "Saving a polar diagram and reading it back loses nothing",
     "For every polar diagram kind and every supported file format, writing a diagram to a csv file and reading it back yields a diagram of the same kind with the same wind speeds, angles, boat speeds, points, parameters (curves of the library's model functions) and sails, and hence the same evaluations. Files of other supported layouts are read into exactly the values they contain, several diagrams saved next to each other do not influence each other, and malformed or unsupported input is refused.",
     ["inputs", "histories", "configurations"],
     "all diagram kinds x table sizes (incl. 1 row/column and default) x formats x value patterns (fractions, tiny, large, zero, negative) x interleavings of saves and loads of two diagrams",
     "Tests write and read one example file per format.",
     ["polardiagram/_reading.py", "polardiagram/_polardiagramtable.py", "polardiagram/_polardiagrampointcloud.py", "polardiagram/_polardiagramcurve.py", "polardiagram/_polardiagrammultisails.py"], [("csv writers/readers", "polardiagram/_reading.py:from_csv")],
     ["to_csv / from_csv"])

prop("C11", "Slices sample a diagram at exactly the requested winds",
     "Requesting slices by a number, an iterable or an explicit collection of wind speeds, with or without a number of steps, yields one slice per requested wind speed, in order, with the requested number of evenly spaced intermediate wind speeds between consecutive ones. Every slice of a table or curve carries the requested wind speed, runs through its angles in ascending order and holds the diagram's boat speed at each; slices of a cloud are the points recorded near the wind speed, those of several sails the sails' slices. Flat point queries are the concatenation of the slices.",
     ["inputs", "configurations"],
     "every request form x diagram kind x step counts 0..4 x ranges and collections in any order",
     "Tests cover one example per request form on one diagram.",
     ["polardiagram/_basepolardiagram.py", "polardiagram/_polardiagramtable.py", "polardiagram/_polardiagramcurve.py", "polardiagram/_polardiagrampointcloud.py"], [("slice requests", "polardiagram/_basepolardiagram.py:PolarDiagram.get_slices")],
     ["get_slices / get_points / ws_to_slices"])

prop("C12", "Convex direction yields the fastest way to make good a course",
     "For every polar diagram, wind speed and course, the returned one or two headings carry proportions in [0, 1] that sum to one, and sailing them in these proportions moves the boat exactly along the requested course; a single heading is the course itself. No other combination of headings recorded in the diagram makes better speed along that course, so the speed made good is that of the convex hull of the polar curve. Courses the hull of the recorded headings does not reach are refused.",
     ["inputs", "configurations"],
     "all courses on a 5 degree lattice x wind speeds x a family of small tables (all boat speed patterns over a small alphabet), clouds and curves; recorded headings and in-between courses, im option",
     "Tests check one table at four courses.",
     ["cruising/basics.py"], [("convex hull edge search", "cruising/basics.py:convex_direction")],
     ["convex_direction return value"])

prop("C13", "Cruise directions bring the boat to its destination in the stated time",
     "For every pair of start and destination, wind and polar diagram, the headings and durations returned for a cruise displace the boat by the distance of the two points along the initial course between them, and the total duration is the shortest achievable with the diagram. Scaling all boat speeds by a factor divides the durations by it and leaves the headings unchanged. The same wind given in a different format yields the same answer, and influences are taken into account.",
     ["inputs", "configurations"],
     "all start/destination pairs of a small lattice x wind directions x wind speeds x diagrams",
     "A single example is tested.",
     ["cruising/basics.py"], [("cruise", "cruising/basics.py:cruise")],
     ["cruise return value"])

prop("C14", "Isochrones and route costs are consistent with the boat's speed",
     "The cost of a straight route is the integral along the way of its cost density plus the absolute cost, where without any density it is the travel time with the diagram's boat speed in the weather met on the way, and in uniform weather it is additive over consecutive legs. An isochrone's end point is the one reached along the requested course after exactly the given time: the distance equals speed times time in uniform weather and the sum of the segments in any, and the travel time to it is the given time. Doubling all boat speeds halves times and doubles distances.",
     ["inputs", "configurations"],
     "all legs of a small lattice x uniform/varying weather x wind directions x step counts x total times; pairs of legs",
     "Only trivially tested.",
     ["cruising/basics.py"], [("path integration", "cruising/basics.py:cost_cruise"), ("isochrone stepping", "cruising/basics.py:isochrone")],
     ["cost_cruise / isochrone return values"])

prop("C15", "Gridded weather is interpolated from the surrounding grid nodes only",
     "At every node of a weather grid the model returns the recorded weather, and between nodes the multilinear interpolation of the surrounding nodes in time, latitude and longitude, hence a value between them and continuous across cells. Points outside the grid are refused. A combination of weather models answers with the attributes of all submodels that know the point, later ones taking precedence, or refuses if so configured, and neither query history nor later changes of the input have influence.",
     ["inputs", "histories", "configurations"],
     "all nodes, cell centres, faces and outside points of all small grid shapes (1..3 nodes per axis); all orders of overlapping models; pairs of queries",
     "Tests check a couple of queries on one grid.",
     ["models/weather_model.py"], [("cell search and weights", "models/weather_model.py:GriddedWeatherModel"), ("fallback", "models/weather_model.py:MultiWeatherModel")],
     ["get_weather"])

prop("C16", "Saved weather grids are restored identically",
     "Writing a gridded weather model to a file and reading it back yields a model with the same times, latitudes, longitudes, attributes and values, so that every query has the same answer. Several saved models do not influence each other.",
     ["inputs", "histories"],
     "all small grid shapes x attribute sets x time stamps (with seconds, microseconds) x interleavings of two saves and loads",
     "One fixed example is round-tripped.",
     ["models/weather_model.py"], [("serialisation", "models/weather_model.py:GriddedWeatherModel")],
     ["to_file / from_file"])

prop("C17", "Globe models are consistent metrics with matching paths",
     "For every globe model, projecting coordinates and back is the identity, the distance of two points is symmetric, non-negative, zero exactly for equal points, satisfies the triangle inequality and agrees with the geometry the model stands for (the plane map for flat and Mercator models, the great circle for the sphere). A shortest path begins and ends at the given points, has the requested number of points, and consecutive points are equally far apart with distances summing to that of the end points.",
     ["inputs", "configurations"],
     "all pairs and triples of a latitude/longitude lattice incl. equal points, poles and date line neighbours x models x resolutions",
     "Tests evaluate a single pair of points per model.",
     ["models/globe_model.py"], [("projections and distances", "models/globe_model.py")],
     ["project / lat_lon / distance / shortest_path"])

prop("C18", "Imputation fills gaps by the rule and touches nothing else",
     "Imputation never changes a recorded value and never reorders chronological rows; a missing value between two recorded ones close enough in time is filled by the chosen rule from these neighbours, time stamps are interpolated linearly by row, other gaps are filled from the one neighbour near enough, and rows that cannot be completed are the only ones removed. The result holds no missing value, the removal-only imputator keeps exactly the complete rows, and the reported statistics count the removed rows and filled values.",
     ["inputs", "histories", "configurations"],
     "every None pattern over tables of up to 5 rows x time gaps below/above the limit x fill functions; reuse of one imputator",
     "Tests feed one fixed table.",
     ["processing/imputator.py"], [("gap filling", "processing/imputator.py:FillLocalImputator")],
     ["Imputator.imputate"])

prop("C19", "Affine smoothing only replaces plateaus by their linear transition",
     "Smoothing keeps the rows, their order, time stamps and non-numeric columns; every column is changed only inside runs of equal values, where it becomes the piecewise affine transition over time to the neighbouring runs: the mean of both values at their common border, the run's own value further than the time span from its borders. Hence values stay within the range of the recorded ones and the first and last are kept. Data whose time stamps are out of order is refused.",
     ["inputs", "histories"],
     "every value pattern over a small alphabet in tables of up to 6 rows x regular and irregular time stamps x time gap limits",
     "One example is tested.",
     ["processing/smoother.py"], [("plateau detection", "processing/smoother.py:AffineSmoother")],
     ["Smoother.smooth"])

prop("C20", "Weighers give one weight in [0, 1] per point by their definition",
     "Each weigher yields exactly one weight per measurement point, in the points' order, equal to the value its definition prescribes (deviation from the mean boat speed in, or number of points in, a cylinder around the point; fluctuation of each attribute in a time window), normalized to [0, 1]. Permuting the points permutes the weights, and far-away points have no influence beyond the definition. Weighing is repeatable with the same object on the same or other data and leaves the data unmodified.",
     ["inputs", "histories", "configurations"],
     "all multisets of lattice points up to size 5 in every order x radii/lengths/norms, all time series up to length 6 x time windows, pairs of weighings with one object",
     "Tests weigh a single array.",
     ["processing/weigher.py"], [("cylinder membership and mean", "processing/weigher.py:CylindricMeanWeigher"), ("fluctuation", "processing/weigher.py:FluctuationWeigher")],
     ["Weigher.weigh"])

prop("C21", "Weigher arithmetic equals arithmetic on the weights",
     "Every expression built from weighers, scalars and lists of weights with +, -, * and /, and powers of weighers, weighs each point by the same expression applied to the weights its operands give that point. This holds for any nesting, operand order and reuse of a weigher within an expression, and other operands are refused.",
     ["programs", "inputs"],
     "every expression tree up to depth 2 (3 thorough) over two leaf weighers and scalars x point sets",
     "Tests build two expressions.",
     ["processing/weigher.py"], [("operator overloading", "processing/weigher.py:Weigher.__add__")],
     ["Weigher.weigh of the composed object"])

prop("C22", "Fuzzy expressions evaluate by their truth functions everywhere",
     "Every fuzzy statement built with comparisons, negation, conjunction and disjunction evaluates, for each measurement, to the composition of its truth functions: values in [0, 1], one half at a threshold, monotone in the compared quantity, complement under negation, minimum and maximum (or the documented operators) under conjunction and disjunction. Statements are evaluated point by point, for scalars, columns and containers alike, and building new statements does not change existing ones.",
     ["programs", "inputs"],
     "every statement tree up to depth 3 over two variables x comparison x sharpness, evaluated on a value lattice",
     "Tests evaluate a handful of statements.",
     ["processing/weigher.py"], [("truth functions", "processing/weigher.py:FuzzyVariable")],
     ["calling a statement / FuzzyWeigher.weigh"])

prop("C23", "Filters keep exactly the points whose weight qualifies",
     "A bounding filter keeps exactly the points whose weight lies within its bounds, a quantile filter never removes more than the given percentage of the points and removes only points of smallest weight: every kept point weighs more than every removed one. Masks have one entry per point in the points' order, do not depend on the order of the points beyond it, and the weights are left unmodified. Statistics report the numbers of removed and kept points.",
     ["inputs", "configurations"],
     "every weight vector over a small alphabet (with ties) up to length 6 x percentages/bounds x all permutations",
     "Tests use one weight vector.",
     ["processing/filter.py"], [("masks", "processing/filter.py")],
     ["Filter.filter"])

prop("C24", "Samplers return the requested number of points in the data's hull",
     "Every sampler returns exactly the requested number of two-dimensional sample points for every data set that spans a triangle, each inside the convex hull of the data and without duplicates: distributed over the hull in proportion to area, for the Fibonacci and Archimedean samplers on the moved and scaled spiral about the centre of the smallest enclosing circle. This holds for any order in which the points are given or shuffled, and the points are left unmodified.",
     ["inputs", "configurations", "schedules"],
     "all small point configurations x sample counts x every shuffle order the enclosing circle search may draw",
     "Tests check one set of points.",
     ["processing/sampler.py"], [("sampling", "processing/sampler.py")],
     ["Sampler.sample"])

prop("C25", "Extensions build the diagram from the interpolated weighted points",
     "Given preprocessed weighted points, the table extension yields a table over the requested wind resolution (or one spanning the data, without duplicates) whose entries are the interpolation of the points in each entry's neighbourhood, the point cloud extension a cloud of the sampled winds with so interpolated speeds, and the curve extension the regression curve of the points in degrees or radians. Entries without neighbours are zero and warned about, and zero injection adds points without speed at 0 and 360 degrees over the recorded wind speeds. Results do not depend on the order of the points or on earlier use of the components, and the given points are left unmodified.",
     ["inputs", "histories", "configurations"],
     "small point sets in every order x resolutions x neighbourhood/interpolator/sampler/injector choices; pairs of builds with one object",
     "Tests run one example each.",
     ["pipeline/extensions.py", "processing/injector.py"], [("entry interpolation", "pipeline/extensions.py"), ("injection", "processing/injector.py")],
     ["PipelineExtension.process", "Injector.inject"])

prop("C26", "The pipeline applies exactly its enabled steps, in order",
     "A run of the sailing data pipeline produces the diagram that applying its components one after the other to the data yields: handling, imputation, smoothing, weighing and filtering, expansion, weighing and filtering, influence fitting and removal, weighing and filtering, injection and diagram construction, skipping exactly the steps switched off. The reported statistics and quality describe that very run and step, test data never reaches the training side, and inputs are unmodified. One or several handlers serve the inputs in order, training data of which nothing is left is refused, and a pipeline object can be run again with the same result as a fresh one.",
     ["configurations", "histories"],
     "every combination of enabling flags x component sets x data splits; every pair of runs on one object",
     "Tests run the default configuration.",
     ["pipeline/pipeline.py"], [("step sequencing", "pipeline/pipeline.py:PolarPipeline")],
     ["PolarPipeline.__call__ output"])

prop("C27", "Weather expansion adds weather to the rows it belongs to",
     "Expanding data by a weather model adds to each row exactly the weather the model reports for that row's time and position, under the standard name of the attribute or, if the data already has that column, a new name beginning with it. All recorded values and rows keep their order; rows the model cannot answer are deleted or filled with None as configured, and all columns stay aligned.",
     ["inputs", "configurations"],
     "every pattern of answered/unanswered rows up to length 5 x modes x overlapping columns",
     "Tests expand one fixed table.",
     ["pipeline/expander.py"], [("row-wise lookup", "pipeline/expander.py:WeatherExpander")],
     ["expand_weather"])

prop("C28", "Data handlers keep every recorded value in order",
     "Reading measurements from an array, data frame, csv file or NMEA log yields all recorded values in the recorded order, each in the column and row it was recorded for: table rows stay rows, and consecutive NMEA sentences share a row until an attribute repeats. Missing entries and empty fields are None; NMEA winds stay true or apparent as marked, southern and western positions are negative, and positions and times keep their value. Selections of sentences, attributes and types drop nothing else, a handler reports its latest result's size and can be reused.",
     ["inputs", "histories"],
     "every sequence of up to 4 NMEA sentences from a small alphabet of sentence types (valid, empty field, malformed), every missing pattern in csv and array inputs; pairs of reads with one handler",
     "Tests read one file of each kind.",
     ["processing/datahandler.py"], [("sentence aggregation", "processing/datahandler.py:NMEAFileHandler"), ("csv reading", "processing/datahandler.py:CsvFileHandler")],
     ["DataHandler.handle"])

prop("C29", "Influence models remove and re-apply influences consistently",
     "Removing an influence from measurement data (tables, lists or arrays) yields for each row the true wind speed, the true wind angle less the corrected offset, and the boat speed, with the given data unmodified; adding an influence evaluates the diagram at the influenced wind, for single values as well as for columns. A fitted angle correction takes the offset of lowest density of measured angles on the circle, so it recovers a constant angular offset of symmetrically sailed data, and removing and adding the influence are inverse. Fitting again forgets earlier data.",
     ["inputs", "configurations"],
     "all small tables of winds/offsets x diagram kinds x scalar and array influence data; pairs of fit/use",
     "Tests run a single example.",
     ["models/influencemodel.py"], [("angle correction", "models/influencemodel.py:WindAngleCorrectingInfluenceModel")],
     ["remove_influence / add_influence / fit"])

prop("C30", "Regression recovers the model and predicts with it",
     "Fitting a regressor to points that lie on its model, from any given or default initial values for linear and nearby ones for other models, recovers parameters reproducing those points; no other parameters give a smaller sum of squared residuals for linear models. The model functions of the library equal their documented formulas for scalars and arrays of winds. Results do not depend on the order of the points, on container types, or on earlier fits with the same object, and the points are left unmodified.",
     ["inputs", "histories", "configurations"],
     "all parameter choices of a small grid x model functions x point lattices x orders; pairs of fits with one object",
     "Tests fit one data set.",
     ["processing/regressor.py", "core/modelfunctions/_models2d.py"], [("fitting", "processing/regressor.py")],
     ["Regressor.fit / optimal_params / model function values"])

prop("C31", "Quality measures report the diagram's actual errors",
     "The quality report of a diagram against test data contains the documented error measures (largest, smallest, mean and mean squared absolute difference; for the conforming report also the zero values at wind angles 0 and 360 and the covering measures) of the diagram's evaluations at the test points' wind speeds and angles in degrees, computed over all points. The error measures are zero exactly for a perfect diagram, do not depend on the order of the points, and diagram and data are left unmodified.",
     ["inputs", "configurations"],
     "all small test sets over a value lattice x diagrams x orders",
     "One example is tested.",
     ["pipeline/quality_assurance.py"], [("error measures", "pipeline/quality_assurance.py")],
     ["QualityAssurance.check"])

prop("C32", "Plots draw exactly the diagram's slices",
     "Plotting or scattering a polar diagram draws for each requested wind speed exactly the points of the diagram's slice at that wind speed, as one line sorted by angle (one part per sail for multi-sail diagrams), in radians on polar axes; with the convex hull option the drawn points are all corners of the hull and lie on its border, closed when the hull surrounds the boat. Every slice has the colour specified for its wind speed (one colour, in order, by pair, or graded linearly from the smallest to the largest wind speed) and legends and colour bars name exactly those wind speeds in those colours; colour gradient, 3d scatter and surface plots are made of exactly the diagram's points. Plotting leaves the diagram and the arguments unmodified.",
     ["inputs", "configurations"],
     "all diagram kinds x wind speed selections x projections x colour configurations",
     "Tests compare a few images and call arguments.",
     ["plotting/projections.py"], [("plot methods", "plotting/projections.py")],
     ["matplotlib line data of the drawn axes"])

prop("C33", "Inputs handed to the library are never modified",
     "No public call on polar diagrams, wind conversions, measurement tables, weighted points, weighers, filters, neighbourhoods, interpolators, samplers, injectors, regressors, data handlers, pipeline extensions, pipelines, quality measures, influence, weather and globe models or cruising functions modifies the arrays, lists, dictionaries, tables or diagrams passed to it, and repeating the call gives the same answer (imputators, smoothers, expanders and methods that edit their own object work in place by design and are excepted). Changing such an input after the call does not change the diagrams, measurement tables, weather models, fitted models or results obtained from it. Changing what a polar diagram hands out, or editing a diagram derived from it, does not change the diagram.",
     ["inputs", "histories"],
     "every public operation of the diagram, conversion, processing and cruising interface x container types x later mutation of the input",
     "Tests compare outputs only.",
     ["polardiagram", "core/computing.py", "processing", "pipeline", "cruising/basics.py"], [("copying at the interface", "core/computing.py:_sort_points_by_angle")],
     ["deep comparison of inputs before/after"])

prop("C34", "Components give the same answer fresh or used",
     "Every component of the processing and pipeline layers (weighers, filters, neighbourhoods, interpolators, samplers with deterministic placement, injectors, regressors, imputators, smoothers, data handlers, extensions, quality assurance, the pipeline), every influence, weather and globe model, and every polar diagram answers a call, results and latest statistics alike, exactly as a freshly constructed one with the same arguments does, whatever calls it answered before, other instances answered in between, or refused calls occurred, and so does a deep copy of it. Execution times are excluded, and fitting a model is judged by the answers after the fit.",
     ["histories", "configurations"],
     "every ordered pair (triple in the thorough tier) of calls from a small alphabet per component, against a fresh instance",
     "Tests use a fresh object per test.",
     ["processing", "pipeline", "models"], [("no retained call state", "processing")],
     ["return values of reused against fresh components"])

prop("C35", "Weather from NetCDF files and meteostat is the recorded weather",
     "A weather model over a NetCDF file reports at every grid node exactly the recorded value of every variable, and between nodes the affine interpolation of the surrounding ones, whatever the order of the file's dimensions, the direction of its latitudes and longitudes, the names, units, number types and offsets of its coordinates and the further indices chosen. Weather fetched from meteostat holds each place's value at each hour under the requested keys, also if some places have no data. Several models do not influence each other, weather outside the grid and layouts that cannot be interpreted are refused.",
     ["inputs", "configurations"],
     "every order of the dimensions x directions x sizes, time units x names x number types, variables lacking any dimension or having a further one, probes at all nodes and inside all cells; every pattern of places without data on grids up to 3 x 3",
     "The tests cannot reach this code at all: netCDF4 and meteostat are not installed.",
     ["models/weather_model.py"], [("index and axis bookkeeping", "models/weather_model.py:NetCDFWeatherModel"), ("grid assembly", "models/weather_model.py:GriddedWeatherModel.from_meteostat")],
     ["NetCDFWeatherModel.grid / get_weather", "GriddedWeatherModel.from_meteostat"])

prop("C36", "The text form of diagrams, data and directions shows their values",
     "The printed form of a polar diagram table lists its wind speeds, wind angles and boat speeds, each boat speed in the row and column of its wind (of tables with more than 15 wind speeds the first and last five), that of a point cloud its points in order, and that of a multi-sail diagram each sail's name followed by its table. Printed measurement data shows each field's name, type and entries, abbreviated in the middle only, and a printed direction its angle, share of time and sail. Numbers are rounded to the shown digits and a changed object prints its current values.",
     ["inputs"],
     "all table widths up to 22 (40 thorough) x heights x value ranges, all ordered selections of points, all tuples of up to three sails, all record lengths up to 23 with and without gaps",
     "Only the composition of two stub tables' texts is tested.",
     ["polardiagram/_polardiagramtable.py", "polardiagram/_polardiagrampointcloud.py", "polardiagram/_polardiagrammultisails.py", "core/data.py", "cruising/basics.py"],
     [("short and long table layout", "polardiagram/_polardiagramtable.py:PolarDiagramTable.__str__"), ("record text", "core/data.py:Data.__str__")],
     ["str() of diagrams, Data and Direction"])

prop("C37", "Statistics describe the latest run of their component",
     "After each run, the statistics of a weigher give the mean, smallest and largest of the weights it returned and the percentage of weights in each tenth of the span between them, so that every weight is counted. Those of a filter give the numbers of kept and removed points, and those of data handlers, imputators, expanders and injectors the rows, columns, removed rows and added points of their output. Earlier runs of the same component leave no trace in them.",
     ["inputs", "histories"],
     "all weight vectors over nine values up to length 3 (multisets up to length 6 thorough) and long vectors, five kinds of weighers used repeatedly, every mask up to length 5, every sequence of three tables through the data steps",
     "Tests compare statistics of single runs with few values.",
     ["processing/weigher.py", "processing/filter.py", "processing/injector.py", "processing/imputator.py", "processing/datahandler.py", "pipeline/expander.py"],
     [("weight statistics", "processing/weigher.py:Weigher.set_statistics"), ("filter statistics", "processing/filter.py:Filter.set_statistics")],
     ["get_latest_statistics()"])

prop("C38", "Invalid requests are refused and leave no trace",
     "Constructors and methods refuse arguments they document as invalid - negative wind speeds, non-positive radii, counts, step sizes, bounds out of order, data of wrong shape, type or length, values that are not finite, unknown formats, keys and names, winds outside the supported range - by raising an exception, and accept the limiting values still allowed. A refused request leaves the object, its arguments and everything obtained from it exactly as they were, whatever requests came before, so that later requests are answered as if it had not been made.",
     ["inputs", "histories"],
     "33 constructors and functions with 258 invalid and limiting arguments (pairs of calls thorough), and every history up to length 2-3 of valid and invalid requests on 15 kinds of objects (diagrams, measurement data, weather models, injectors, regressors, smoothers, weighers, pipelines)",
     "Tests check single exceptions and never the state of the object after one.",
     ["core/data.py", "core/computing.py", "polardiagram", "processing", "models/weather_model.py", "pipeline/pipeline.py"],
     [("checks before changes", "core/data.py:Data.update"), ("checks of new entries", "polardiagram/_polardiagramtable.py:PolarDiagramTable.change_entries"), ("wind checks", "core/computing.py:_Wind")],
     ["constructors and methods raising ValueError, TypeError, KeyError, IndexError"])

prop("C39", "Requests made at the same time do not disturb one another",
     "Questions asked of one and the same object - evaluation, slices, points, symmetrizing, saving and printing of polar diagrams, neighbourhoods, interpolators, weighers, filters, samplers, injectors, imputators, smoothers, data handlers, table and point cloud extensions, quality measures, influence, weather and globe models, measurement data, and cruising functions sharing a diagram and weather - give the same answers when another question is asked of it, or of a second object of its kind, in the middle of answering, from another thread or from within a function it calls, as when they are asked one after the other. Fitting, pipelines, statistics and methods that edit their own object are excepted.",
     ["schedules", "inputs"],
     "every pair of neighbouring requests (three to eight partners thorough) on 45 kinds of objects, the second one run to its end at every line of the library the first passes (its first visits; every bytecode instruction thorough), and pairs of requests in threads of their own, each stopped once, at every pair of places up to a cap",
     "Tests run one call at a time; an interrupting call needs a controlled scheduler.",
     ["polardiagram", "processing", "models", "cruising/basics.py", "pipeline/extensions.py", "core"],
     [("radius adapted per call", "processing/neighbourhood.py:ScalingBall.is_contained_in"), ("answers from arguments only", "polardiagram/_polardiagramtable.py:PolarDiagramTable.__call__")],
     ["return values of all public query methods"])

prop("C40", "Equal numbers give equal answers, whatever type or container they come in",
     "Whole numbers given to polar diagrams, cruising functions, neighbourhoods, interpolators, weighers, filters, samplers, injectors, regressors, extensions, quality measures, weighted points, weather, influence and globe models give the same answers (up to single precision) whether they come as Python integers or floats, signed 16 (except for model functions), 32 or 64 bit integers, single or double precision numbers of either byte order, contiguous, strided, reversed or read-only arrays, or - where the documentation allows lists - as lists, tuples or mixtures of these. No argument type makes values be truncated, overflow, be refused or be treated as another shape. Influence models take lists and arrays only; tables of measurement data have columns of one type by definition and are excepted.",
     ["inputs", "types"],
     "about 210 questions on all parts of the library, every single input in up to 16 types and containers, every pair of inputs in every pair of them (eight for the first one in quick), all inputs alike",
     "Tests hand over float arrays and lists; a type changes arithmetic in the middle of a calculation only for some of the inputs.",
     ["polardiagram", "processing", "models", "cruising/basics.py", "pipeline", "core"],
     [("wind speeds of a slice", "polardiagram/_basepolardiagram.py:PolarDiagram._get_windspeeds"), ("constant weights", "core/data.py:WeightedPoints.__init__")],
     ["return values of all public query methods"])


prop("C41", "Weighted points keep every point together with its own weight",
     "Points paired with weights - held in an array, a dictionary of lists or a table of measurement data, the weights given one by one or as a single number for all - keep every point with its own weight and its values with their attributes through every sequence of selections and extensions: a selection holds exactly the chosen points in their order, an extension appends the other points in theirs, whatever order their attributes come in. Dictionaries keep the attributes both sides have, tables keep all of them with missing entries. Selections are independent of the points they were taken from, and appended points are left unchanged.",
     ["inputs", "histories"],
     "every creation from 3 containers and 8 forms of weights, every selection of up to 6 points (9 thorough), all orders and subsets of attributes of both sides, and every history of up to 4 (5 thorough) selections and extensions, after each step compared with a list of pairs",
     "Tests extend once and select once; mix-ups need a sequence of both.",
     ["core/data.py"],
     [("weights", "core/data.py:WeightedPoints.__init__"), ("selection", "core/data.py:WeightedPoints.__getitem__"), ("extension", "core/data.py:WeightedPoints.extend")],
     ["WeightedPoints(...)", "WeightedPoints[mask]", "WeightedPoints.extend"])


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=p["mech"],
                             observe_at=p["observe"], hook_needed=None))) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(HERE, "checks", p["id"] + ".py")):
            checks.append(dict(
                property=p["id"],
                quick_cmd=f"./check.sh {p['id']} --tier quick",
                thorough_cmd=f"./check.sh {p['id']} --tier thorough",
                technique=p["tech"] or "explicit-state bounded exhaustive exploration of the real code against a reference model",
                level="model_checking",
                level_note=p["note"] or (
                    "Complete enumeration of the stated bounded space, every trace run on the real "
                    "implementation in /repo and compared step by step with an independent reference. "
                    "Says nothing beyond the alphabet and bounds; trusts numpy/scipy/pandas/matplotlib.")))
        else:
            na.append(dict(property=p["id"], reason="no check registered yet"))
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks,
                       not_applicable=na,
                       notes="Pure Python project: each check imports /repo's current sources directly (compiled in memory), no hooks needed."),
                  fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
