import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
      mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
core='orient/core/'
hyp='The tests sample random figures and compare functions with one another or with special cases; degenerate configurations (vertices on edges, shared edges, collinear runs, several rays at a vertex) have vanishing probability there, and most assertions are one-directional.'
prop('C01','A point is located exactly',
 'Locating a point in a segment, multisegment, contour, region, multiregion, polygon or multipolygon answers BOUNDARY exactly when the point is on one of its edges, INTERIOR exactly when it is inside of a shaped geometry and on none of its edges, and EXTERIOR otherwise. Linear geometries have no interior.',
 ['inputs'],'every point and every valid geometry of the seven kinds','Must hold for every point of the plane and every figure, including points level with vertices, at touching holes and on edges shared by parts of a figure; '+hyp,
 [core+'segment.py',core+'multisegment.py',core+'contour.py',core+'region.py',core+'multiregion.py',core+'polygon.py',core+'multipolygon.py','orient/planar.py'],
 [('ray casting over the edges of the ring','orient/core/region.py locate_point'),('precedence of border and holes','orient/core/polygon.py locate_point'),('first part that is not EXTERIOR wins','orient/core/multiregion.py, multipolygon.py locate_point')],
 ['return value of point_in_*'])
prop('C02','Linear geometries are related to linear geometries as their point sets are',
 'For segments, multisegments and contours the relation is EQUAL, COMPONENT or COMPOSITE exactly when the point sets are equal or one contains the other, otherwise OVERLAP when they share a piece of positive length, otherwise CROSS when at some common point they pass through each other, otherwise TOUCH when they share a point and DISJOINT when they share none.',
 ['inputs'],'every pair of valid segments, multisegments and contours, in the six combinations','The answer depends on the whole arrangement of both figures; '+hyp,
 [core+'segment.py',core+'multisegment.py',core+'contour.py',core+'events_queue.py',core+'sweep_line.py',core+'processing.py','orient/planar.py'],
 [('sweep over both edge sets dividing edges at crossings','orient/core/events_queue.py LinearEventsQueue'),('order of active edges','orient/core/sweep_line.py'),('detection of rays crossing at a common vertex','orient/core/events_queue.py'),('classification of the finished edges','orient/core/processing.py process_open_linear_queue, process_closed_linear_queue'),('piecewise coverage of a segment','orient/core/multisegment.py, contour.py relate_segment')],
 ['return value of the six functions'],
 [('relation of an edge','how the edge meets the other figure','orient/core/event.py')])
prop('C03','A segment is related to a shaped geometry as its point set is',
 'For a segment and a region, multiregion, polygon or multipolygon the relation is CROSS when parts of the segment lie in the interior and outside, TOUCH when parts lie outside, none in the interior and some point is on the boundary, DISJOINT when it has no common point, COMPONENT when it lies in the boundary, ENCLOSED when it lies inside meeting the boundary, WITHIN when it lies in the interior.',
 ['inputs'],'every valid segment and every valid shaped geometry','A segment can run along several collinear edges, through reflex vertices and through points where holes touch the border or parts touch each other; '+hyp,
 [core+'region.py',core+'multiregion.py',core+'polygon.py',core+'multipolygon.py',core+'contour.py',core+'processing.py'],
 [('relation with the border combined with the relation with the holes','orient/core/polygon.py relate_segment'),('location of the ends combined with the relation to the contour','orient/core/region.py relate_segment'),('sweep','orient/core/processing.py process_linear_compound_queue')],
 ['return value of segment_in_region, segment_in_multiregion, segment_in_polygon, segment_in_multipolygon'])
prop('C04','Multisegments and contours are related to shaped geometries as their point sets',
 'For a multisegment or contour and a region, multiregion, polygon or multipolygon the relation follows from which of the interior, boundary and exterior the pieces of the linear geometry lie in: CROSS (interior and exterior), TOUCH or DISJOINT (exterior, none in the interior), COMPONENT (boundary only), ENCLOSED or WITHIN (no exterior).',
 ['inputs'],'every pair of a valid multisegment or contour and a valid shaped geometry','Depends on the whole arrangement; '+hyp,
 [core+'events_queue.py',core+'sweep_line.py',core+'event.py',core+'processing.py',core+'region.py',core+'multiregion.py',core+'polygon.py',core+'multipolygon.py'],
 [('inside/overlap flags of swept edges','orient/core/events_queue.py CompoundEventsQueue.compute_position, event.py'),('classification','orient/core/processing.py process_linear_compound_queue'),('border and holes','orient/core/polygon.py relate_contour, relate_multisegment'),('bounding box shortcuts','orient/core/box.py and every relate_*')],
 ['return value of the eight functions'])
prop('C05','Regions and multiregions are related to each other as their point sets',
 'For regions and multiregions the relation is EQUAL when the point sets are equal; WITHIN, ENCLOSED or COMPONENT when the first is a proper subset whose boundary meets the other boundary nowhere, partly, or lies in it wholly; COVER, ENCLOSES or COMPOSITE in the converse cases; OVERLAP when the interiors meet otherwise; TOUCH when only boundaries meet and DISJOINT when nothing does.',
 ['inputs'],'every pair of valid regions or multiregions, in the three combinations','Depends on the whole arrangement; '+hyp,
 [core+'region.py',core+'multiregion.py',core+'events_queue.py',core+'sweep_line.py',core+'event.py',core+'processing.py',core+'box.py'],
 [('orientation of edges, interior to the left flag','orient/core/region.py to_oriented_segments, event.py'),('overlap kinds and inside flags','orient/core/events_queue.py CompoundEventsQueue'),('classification','orient/core/processing.py process_compound_queue'),('bounding boxes','orient/core/box.py')],
 ['return value of region_in_region, region_in_multiregion, multiregion_in_multiregion'])
prop('C06','Regions, multiregions and polygons are related to polygons as their point sets',
 'For a region, multiregion or polygon and a polygon with any number of holes (interior connected) the relation is that of the point sets: equal, proper subset or superset refined by how the boundaries meet, OVERLAP, TOUCH or DISJOINT.',
 ['inputs'],'every pair of a valid region, multiregion or polygon and a valid polygon','The relations of borders and holes combine in many ways, most of which need several holes in special positions; '+hyp,
 [core+'polygon.py',core+'region.py',core+'multiregion.py',core+'processing.py'],
 [('combination of the relations of borders and holes','orient/core/polygon.py relate_region, relate_multiregion, relate_polygon')],
 ['return value of region_in_polygon, multiregion_in_polygon, polygon_in_polygon'])
prop('C07','Shaped geometries are related to multipolygons as their point sets',
 'For a region, multiregion, polygon or multipolygon and a multipolygon the relation is that of the point sets: equal, proper subset or superset refined by how the boundaries meet, OVERLAP, TOUCH or DISJOINT; parts may touch each other, lie in holes of other parts or far away.',
 ['inputs'],'every pair of a valid shaped geometry and a valid multipolygon','Depends on all the parts together; '+hyp,
 [core+'multipolygon.py',core+'polygon.py',core+'processing.py',core+'events_queue.py',core+'box.py'],
 [('joint sweep over all the parts','orient/core/multipolygon.py relate_*'),('parts skipped by bounding boxes','orient/core/multipolygon.py')],
 ['return value of region_in_multipolygon, multiregion_in_multipolygon, polygon_in_multipolygon, multipolygon_in_multipolygon'])
prop('C08','Swapping the arguments gives the complement relation',
 'For every two valid geometries of the same kind the relation of the first to the second is the complement of the relation of the second to the first: COVER and WITHIN, ENCLOSES and ENCLOSED, COMPOSITE and COMPONENT exchanged, the rest unchanged. A geometry is EQUAL to itself however it is written down.',
 ['inputs'],'every ordered pair of valid geometries of the same kind','A relation between two executions on exchanged arguments for all inputs; the tests sample it without degenerate contacts.',
 [core+'segment.py',core+'multisegment.py',core+'contour.py',core+'region.py',core+'multiregion.py',core+'polygon.py',core+'multipolygon.py',core+'processing.py'],
 [('symmetric handling of the two figures','orient/core/processing.py, events_queue.py')],['return values of the seven functions of equal kinds'])
prop('C09','The answer does not depend on how a figure is written down',
 'The relation stays the same when vertices of a contour start elsewhere or go the other way, when ends of segments are exchanged, when parts, holes, segments are reordered, when vertices are added in the middle of edges, and when segments of a multisegment are subdivided.',
 ['inputs','configurations'],'every pair of valid geometries and every respelling of them','Must hold for all respellings of all pairs; tests check single respellings on random figures.',
 [core+'region.py',core+'contour.py',core+'multiregion.py',core+'polygon.py',core+'multipolygon.py',core+'multisegment.py',core+'events_queue.py','orient/core/utils.py'],
 [('edges oriented by the orientation of the contour','orient/core/region.py, contour.py, utils.py'),('events keyed by position, not order of registration','orient/core/events_queue.py')],['return values of all the 28 relations'])
prop('C10','The same figures give the same answer through every kind that can hold them',
 'A region, the multiregion of it, the polygon with it as border and no holes and the multipolygon of that polygon, a segment and the multisegment of it, a contour and the multisegment of its edges, a polygon and the multipolygon of it, a multiregion and the multipolygon of its contours are interchangeable in every relation with any other geometry.',
 ['inputs','configurations'],'every pair of valid geometries and every packaging of each','The functions take different code paths for the same figures; tests compare a few pairs of them on random figures.',
 [core+'segment.py',core+'multisegment.py',core+'contour.py',core+'region.py',core+'multiregion.py',core+'polygon.py',core+'multipolygon.py'],
 [('direct algorithms for single parts against sweeps for many','orient/core/*.py relate_*')],['return values of all the 28 relations'])
prop('C11','Answers are exact for every exact coordinate type, scale and position',
 'With the default context the answer for integers, fractions, floats and their mixtures, at any magnitude, is the answer for the exact values; invertible affine maps of both figures do not change it, nor does passing an equivalent context explicitly.',
 ['inputs','configurations'],'every pair of valid geometries, every invertible affine map, every exact coordinate type','Quantifies over maps and number types; tests use one coordinate domain of moderate size at a time.',
 [core+'events_queue.py',core+'sweep_line.py',core+'region.py',core+'segment.py',core+'box.py','orient/planar.py'],
 [('predicates of the context, no arithmetic with tolerance','orient/core/*.py context.angle_orientation, segments_intersection, ..')],['return values of all the 35 functions'])
prop('C12','Queries are pure: no effect on arguments, no memory, the given context',
 'A query changes none of its arguments, answers the same whenever and however often it is asked, in whatever order and from whatever threads, answers for the current content of its arguments, and uses the context passed to it or, when there is none, the default one at the time of the call.',
 ['histories','schedules'],'every history of queries, edits of the queried objects and changes of the context','Quantifies over histories; tests call each function on fresh objects and never look at the arguments afterwards.',
 ['orient/planar.py',core+'events_queue.py',core+'event.py',core+'multisegment.py',core+'multiregion.py',core+'polygon.py',core+'multipolygon.py'],
 [('all the state is local to a call','orient/core/events_queue.py, event.py'),('context resolved per call','orient/planar.py')],['return values, projections of the arguments before and after'],
 [('store','the geometries a client holds','client'),('context','the default context','ground.base')])
prop('C13','Every query on valid geometries answers with an admissible value',
 'On valid geometries of every size every function terminates without an exception and returns a Location (locating a point) or a Relation of those its combination of kinds admits: for instance never OVERLAP for a linear with a shaped geometry, never CROSS for two shaped ones, never INTERIOR for a linear geometry.',
 ['inputs'],'all valid arguments of the 35 functions, up to thousands of edges','Termination and absence of exceptions for all inputs; the sweep divides edges and reorders its queue as it goes, which fails only on special arrangements.',
 ['orient/planar.py',core+'events_queue.py',core+'sweep_line.py',core+'processing.py'],
 [('removal and reinsertion of divided edges','orient/core/events_queue.py, sweep_line.py'),('final classification','orient/core/processing.py')],['return values and exceptions of all the 35 functions'])
prop('C14','Answers about several figures and points fit together',
 'Answers about the same figures never contradict each other: subset relations compose, subsets of a figure are apart from what the figure is apart from, a point located in a figure is located accordingly in its supersets and not in figures disjoint with it, and figures that answer EQUAL locate every point alike.',
 ['inputs','histories'],'every three valid geometries and every point','Quantifies over tuples of figures and points across different functions; no test relates answers of three functions.',
 ['orient/planar.py',core+'processing.py',core+'polygon.py',core+'multipolygon.py',core+'region.py'],
 [('one meaning of the relations in all the functions','orient/planar.py')],['return values of all the 35 functions'])
prop('C15','A figure is related as its parts together',
 'The answer about whole figures is one that the answers about their parts allow: figures of several shaped parts are related as the table of relations of the parts says (subset when every part of the first is in a part of the second, and so on); a linear geometry has pieces in the interior, outside of and on the boundary of a shaped one when its segments have; the relation to a polygon follows from those to its border and holes; a point is located by its locations in parts, or in the border and holes.',
 ['inputs'],'every pair of a valid geometry (or point) and a valid geometry of several parts, segments or rings, of any size','Relates the answer of one function to the answers of other functions for all the parts; the tests never decompose figures. Holds at sizes and coordinates where no reference answer is available.',
 [core+'multisegment.py',core+'contour.py',core+'multiregion.py',core+'polygon.py',core+'multipolygon.py',core+'processing.py',core+'events_queue.py'],
 [('joint sweep over all the parts','orient/core/multipolygon.py, multiregion.py relate_*'),('combination of borders and holes','orient/core/polygon.py'),('first part that is not EXTERIOR wins','orient/core/multiregion.py, multipolygon.py locate_point')],
 ['return values of all the 35 functions'])
prop('C16','A figure and its boundary answer alike',
 'Replacing a shaped geometry by its boundary (the contour of a region, or the multisegment of all its edges) gives consistent answers: a point is on the boundary of a figure exactly when it is on the boundary as a linear geometry; a linear geometry has contact with the boundary of a figure exactly when it is not DISJOINT with the boundary, and is COMPONENT exactly when it lies in it; the relation of two shaped geometries is the one that follows from the relations of each boundary to the other figure and of the two boundaries to each other.',
 ['inputs'],'every pair of a valid geometry (or point) and a valid shaped geometry, and the linear geometries of their boundaries','Relates answers of the functions of linear geometries to those of shaped geometries for all inputs; the tests never replace a figure by its boundary.',
 [core+'processing.py',core+'events_queue.py',core+'event.py',core+'region.py',core+'multiregion.py',core+'polygon.py',core+'multipolygon.py',core+'contour.py',core+'multisegment.py'],
 [('sweep of linear events','orient/core/events_queue.py LinearEventsQueue'),('sweep of compound events','orient/core/events_queue.py CompoundEventsQueue'),('classification','orient/core/processing.py')],
 ['return values of all the 35 functions'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
DONE=[p['id'] for p in P]
TECH={
 'oracle':'explicit TLA+ specification (spec/Planar.tla): TLC enumerates answers for pairs of small figures, which are played back into the library, and judges recorded library calls (trace validation)',
 'theorem':'explicit TLA+ specification: TLC checks the property as a theorem of spec/Planar.tla on slices of a universe of figures (spec/Theorems.tla) and validates recorded library calls against it (spec/Conformance.tla)',
 'session':'explicit TLA+ specification of sessions (spec/Session.tla), model checked by TLC; trace validation of recorded sessions of the library against it (spec/SessionTrace.tla)'}
NOTE={
 'oracle':'Every answer of the real library that is looked at is compared with the specification by TLC, or with an answer TLC derived from it: tens of thousands of enumerated small pairs and tens of thousands of larger recorded ones per quick run, concentrated on degenerate arrangements; not proved for all inputs. Trusts TLC, the recorder and the specification.',
 'theorem':'The property is first checked by TLC to follow from the specification on thousands of pairs of small figures; then tens of thousands of recorded groups of library calls per quick run are judged by TLC; not proved for all inputs. Trusts TLC, the recorder and the specification.',
 'session':'Every event of thousands of recorded sessions has to be a step of the specification, judged by TLC; holds for the histories recorded, not proved for all. Trusts TLC, the recorder and the specification.'}
def how(i): return 'session' if i=='C12' else 'oracle' if i<'C08' else 'theorem'
m=dict(version=1,setup_cmd='bash setup.sh',checks=[dict(property=i,quick_cmd=f'bash check.sh {i} --tier quick',thorough_cmd=f'bash check.sh {i} --tier thorough',evidence_file=f'evidence/{i}.json',technique=TECH[how(i)],level='model_checking',level_note=NOTE[how(i)]) for i in DONE],
 not_applicable=[],notes='No hooks: the checks use the public API only. See DESIGN.md.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
