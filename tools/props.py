"""The properties and their checks; tools/gen.py writes properties.jsonl and
MANIFEST.json from this table."""
P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over,
                  text=' '.join(text.split()), why=' '.join(why.split()), files=files, mech=mech,
                  tech=tech, note=' '.join(note.split()), state=list(state),
                  observe=list(observe)))


A = 'arboris/'
TRUST = ('The abstract interpreter and its library models (numpy, builtins) are trusted; '
         'equalities are over the reals (rounding is not modelled).')
GVN = 'dataflow: gated algebraic value numbering of the function bodies'

prop('C01', 'Displacement constructors build the displacement their name denotes',
     '''Every elementary or compound displacement constructor (translation, rotations about one,
     two or three axes, alignment of z) returns, for all arguments, the homogeneous matrix of that
     displacement, with an orthonormal right-handed rotation; the predicate on homogeneous matrices
     accepts every displacement and rejects the arrays of another shape or last row, and those whose linear part does not
     preserve volume and orientation.''',
     ['inputs'], 'every angle, translation and direction, including the ordering of the components that '
     'selects the auxiliary axis', '''doctests evaluate one or two angles, often multiples of pi/2
     where sign and order errors coincide''',
     [A + 'homogeneousmatrix.py'], [('transl, rot*, zaligned, ishomogeneousmatrix', A + 'homogeneousmatrix.py')],
     GVN, 'Complete over the reals for the constructors. ' + TRUST)
prop('C02', 'Displacement inverse, adjoints and actions follow the group laws',
     '''For every displacement, the inverse, the adjoint and its inverse and rate, the action on points and
     vectors and the extraction of Euler angles obey the laws of the displacement group: composition
     with the inverse is the identity, adjoints transport twists, the extracted angles rebuild the
     rotation even at the singularity; the adjoint predicate accepts every adjoint matrix and rejects
     the arrays of another shape or block structure. Arrays of integers are as good as arrays of floats.''',
     ['inputs'], 'every displacement (all rotations, all translations), every twist, point and vector',
     'the doctests evaluate a handful of displacements, none near the singular configuration',
     [A + 'homogeneousmatrix.py', A + 'adjointmatrix.py'],
     [('inv, adjoint, iadjoint, dAdjoint, pdot, vdot, rotzyx_angles', A + 'homogeneousmatrix.py'), ('inv, isadjointmatrix', A + 'adjointmatrix.py')],
     GVN + ' over the rational parametrisation of SE(3)', 'Complete over the reals. ' + TRUST)
prop('C03', 'The twist exponential is exact, and accurate near zero',
     '''The exponential of a twist is the displacement obtained by following that constant twist for unit
     time; in the neighbourhood of zero rotation where a series is used, its distance to the exact
     exponential stays below the rounding-level bound over the whole neighbourhood, and the
     closed form is not used where it would lose its digits to cancellation; adjacency of a twist is the
     small adjoint.''',
     ['inputs'], 'every twist, on both sides of the small-angle gate',
     'tests try one pure rotation and one pure translation, far from the gate',
     [A + 'twistvector.py'], [('exp, adjacency', A + 'twistvector.py')],
     GVN + '; series expansion with a polynomial error bound at the gate', 'Complete over the reals. ' + TRUST)
prop('C04', 'Mass matrices are the textbook inertias and transport preserves energy',
     '''The mass matrices built for spheres, ellipsoids, cylinders and boxes are those of the homogeneous
     solids; expressing a mass matrix in another frame preserves the kinetic energy of every twist; the
     principal frame of any mass matrix is a right-handed displacement in which that mass matrix is diagonal.
     The predicate accepts exactly the symmetric positive (or semi-definite ones, when asked) matrices with the structure of a mass.''',
     ['inputs'], 'every mass, dimension, displacement and (for the principal frame) every mass matrix, '
     'with equal or distinct principal inertias', 'tests use one numeric solid and one displacement',
     [A + 'massmatrix.py'], [('sphere, ellipsoid, cylinder, box, transport, principalframe, ismassmatrix', A + 'massmatrix.py')],
     GVN + ' with spectral side conditions', 'numpy eigenvalue/QR/SVD results are modelled by their defining equations. ' + TRUST)
prop('C05', 'Joint pose, jacobian, rate and integration are mutually consistent',
     '''For every joint kind, the jacobian maps the joint velocity to the twist of the moving frame, the rate
     of the jacobian is its time derivative, the inverse pose inverts the pose, and
     integrating over a step moves the coordinates by exactly the motion the velocity denotes; coordinates
     are kept as reals whatever the type of the values given, and a joint built with given coordinates and velocities
     starts with them.''',
     ['inputs', 'programs'], 'every joint class present in the source, every coordinate, velocity and step',
     'tests exercise a few joint classes at one configuration, mostly aligned with the axes',
     [A + 'joints.py', A + 'core.py'], [('concrete Joint subclasses', A + 'joints.py'), ('Joint, LinearConfigurationSpaceJoint', A + 'core.py')],
     GVN + ', symbolic differentiation of the return terms', 'New Joint subclasses are discovered and checked. ' + TRUST,
     state=[('gpos, gvel', 'joint coordinates and velocity', A + 'joints.py')])
prop('C06', 'Every quantity derived from a motion agrees with its pose and twist',
     '''Inverse pose, adjoint, inverse adjoint, their rates and the inverse twist exposed by any moving frame are
     those of its pose and twist, at every instant.''',
     ['inputs'], 'every pose and twist', 'tests read some of these for static frames only, where wrong twists vanish',
     [A + 'rigidmotion.py'], [('RigidMotion', A + 'rigidmotion.py')], GVN,
     'Complete over the reals, for each subclass of the motion interface. ' + TRUST)
prop('C07', 'Forward kinematics composes pose, twist, jacobian and rate down any tree',
     '''After a kinematic update, each body's pose is the product of the joint and attachment displacements
     from the ground, its twist the sum of the transported joint twists, its jacobian times the generalized velocity is its
     twist and its jacobian rate is the time derivative of the jacobian; subframes follow their body
     rigidly.''',
     ['inputs', 'programs'], 'every tree shape (any number of children), joint kind, attachment frames, configuration and velocity',
     'tests compare stored numbers for one to three small mechanisms',
     [A + 'core.py'], [('Body.update_geometric/update_dynamic', A + 'core.py'), ('World.update_geometric/update_dynamic', A + 'core.py'), ('SubFrame', A + 'core.py')],
     GVN + '; induction step on an arbitrary body with a summarised set of children',
     'Joints are represented by what C05 decides, motions by C06, displacement functions by C02. ' + TRUST,
     state=[('_pose, _jacobian, _djacobian, _twist', 'kinematic cache of a body', A + 'core.py')])
prop('C08', 'The dynamic model is the sum of the bodies, with the Newton-Euler bias',
     '''After a dynamic update, the mass, viscosity and nonlinear effects matrices of the world are the sums
     over the bodies of their congruent contributions, for the current state only; the bias of each body is the Newton-Euler one
     about its own frame for any mass distribution.''',
     ['inputs', 'histories', 'programs'], 'every tree, mass distribution and velocity, and any earlier content of the matrices (repeated updates)',
     'tests check stored mass matrices of small robots, with bodies whose center of mass is at the origin, once',
     [A + 'core.py'], [('Body.update_dynamic, World.update_dynamic', A + 'core.py')],
     GVN + ' with loop summaries (sums over an arbitrary set of bodies)',
     'Relies on C07 for jacobians. ' + TRUST,
     state=[('_mass, _nleffects, _viscosity', 'world matrices', A + 'core.py')])
prop('C09', 'Degrees of freedom partition the world vector and joint velocities are views',
     '''Initialising a world gives its joints consecutive ranges that cover the generalized velocity exactly
     once, keeps their velocities, and makes each joint's velocity the same storage as its range of the world's; initialising again
     changes nothing, and controllers and constraints are initialised once with the complete layout. The degrees of freedom of a list
     of joints are those of its joints, in order.''',
     ['programs', 'histories'], 'every set of joints of every size, repeated initialisation',
     'tests use worlds built by one helper and never re-initialise after moving',
     [A + 'core.py'], [('World.init', A + 'core.py'), ('JointsList', A + 'core.py')],
     GVN + ' with prefix-sum loop summaries; alias (view) tracking of arrays',
     'Lists of joints are decided on layouts covering each branch, not on all lists. ' + TRUST,
     state=[('_dof, _gvel, _ndof', 'layout', A + 'core.py')])
prop('C10', 'Controllers contribute exactly the sum of their forces and impedances',
     '''At each step the generalized force is the sum of the forces of all controllers, and the admittance is the
     inverse of mass over step plus viscous and nonlinear terms minus the impedances of all controllers, independently
     of what the previous step left there.''',
     ['inputs', 'programs', 'histories'], 'every set of controllers, every step length, any earlier content',
     'tests use at most one controller and a constant step',
     [A + 'core.py'], [('World.update_controllers', A + 'core.py')], GVN + ' with loop summaries',
     'Controllers are arbitrary objects of the Controller protocol. ' + TRUST,
     state=[('_gforce, _impedance, _admittance', 'world force and admittance', A + 'core.py')])
prop('C11', 'Weight and PD controllers implement their force laws',
     '''The weight controller yields the generalized force of gravity on every body that has mass, along the
     vertical of the world; a PD controller yields stiffness times the coordinate error plus
     damping times the desired velocity, and the matching implicit impedance, on the degrees of freedom of its joints only, also when
     joints have different numbers of degrees of freedom or are not contiguous.''',
     ['inputs', 'programs'], 'every set of bodies, mass distribution and configuration; every joint list, gain and step',
     'tests use one weight on one pendulum and PD gains on joints with equal numbers of degrees of freedom',
     [A + 'controllers.py'], [('WeightController, ProportionalDerivativeController', A + 'controllers.py')], GVN + ' with loop summaries',
     TRUST)
prop('C12', 'Constraint forces enter the step as the sum of the applied impulses',
     '''When constraints are updated, every enabled constraint is updated once, the constraints that are inactive
     contribute nothing, and the generalized force finally applied is the controllers' one plus the sum over active
     constraints of jacobian-transposed constraint force, consistent with the velocity each solver saw during the sweeps.
     Unless told otherwise, the sweeps go on until two successive velocities agree to 1e-4, for up to a thousand of them.''',
     ['inputs', 'programs'], 'every set of constraints in any state, any number of sweeps and any tolerance',
     'tests run a few constraints to convergence and compare stored numbers', [A + 'core.py'],
     [('World.update_constraints', A + 'core.py')], GVN + ' with loop summaries, against a reference algorithm',
     'Convergence of the sweeps is not claimed. ' + TRUST)
prop('C13', 'A time step solves the discrete equation of motion, in the protocol order',
     '''Integration sets the velocity to the solution of the implicit discrete equation of motion, moves every joint
     by its own part of the new velocity over the step, and advances the clock by the step; a simulation initialises
     once, then for each consecutive pair of times updates dynamics, controllers, constraints and observers and integrates, in that order, and finishes.''',
     ['inputs', 'programs', 'histories'], 'every world, step and timeline',
     'tests simulate a few steps of fixed length and compare final numbers', [A + 'core.py'],
     [('World.integrate', A + 'core.py'), ('simulate', A + 'core.py')], GVN + '; call-order (typestate) analysis of the simulation loop',
     TRUST, state=[('_current_time', 'clock of the world', A + 'core.py')])
prop('C14', 'Constraint solvers obey their force laws',
     '''For any velocity, admittance, step and accumulated force: after a joint limit is solved, the predicted
     coordinate is inside the limits, or pushed back exactly to the limit it violates by a force of the admissible sign, and the
     limit is inactive away from both limits; a ball and socket cancels the separation predicted at the end of the step; a soft finger
     contact yields no force when it separates, otherwise cancels the normal velocity and sticks, or slides on the friction ellipse.
     The increment returned is exactly the change of the accumulated force.''',
     ['inputs', 'histories'], 'every velocity, admittance, step, previous force, limits, friction coefficient',
     'the tests solve a few constraints for one admittance matrix, with decoupled coordinates',
     [A + 'constraints.py'], [('JointLimits.solve, BallAndSocketConstraint.solve, SoftFingerContact.solve', A + 'constraints.py')],
     GVN + '; eigenvalue selections kept as collections, inequality contradictions on signs only',
     'That the sliding force lies on the ellipse is decided for the multiplier the code selects among the real eigenvalues, as the published law does. ' + TRUST,
     state=[('_force', 'accumulated constraint force', A + 'core.py')])
prop('C15', 'Constraint jacobians give the velocity of the law; contacts follow the solver',
     '''For arbitrary frames on arbitrary bodies the jacobian of a constraint maps the generalized velocity
     to the velocity its law is written for (joint rates, separation rate, spin and velocity at the contact), and its generalized force
     is the transposed jacobian applied to its force. Updating a contact puts its frames where the collision solver says, on the bodies
     of the shapes, starts from a null force, and activates the contact exactly when the distance predicted at the end of the step
     is below the proximity. Constraints are enabled until disabled, and conversely.''',
     ['inputs', 'programs'], 'every pair of frames and bodies, any collision solver, any worlds and joint positions in the chain',
     'tests use contacts with the ground at rest and frames with no offset', [A + 'constraints.py', A + 'core.py'],
     [('JointLimits.init, BallAndSocketConstraint.jacobian, PointContact.update, SoftFingerContact.jacobian', A + 'constraints.py')],
     GVN, 'The rows of joint limits are decided on worlds covering a joint at the start, middle and end of the layout. ' + TRUST,
     state=[('_jacobian', 'rows of a joint limit', A + 'constraints.py')])
prop('C16', 'Collision solvers return the signed distance and frames on the two surfaces',
     '''For every pair of shapes a solver exists for, of any size and in any pose, in both orders: the distance returned is the signed
     distance of the two surfaces; both contact frames have the same right-handed orientation with z along the normal from the
     first shape to the second; their origins lie on the first and on the second surface and are separated by
     the signed distance along the normal. Touching and interpenetrating shapes, centres inside a box included.''',
     ['inputs'], 'every size and pose; every place of a point around, on and in a box except ties between faces',
     'the doctests use axis-aligned shapes in the ground frame', [A + 'collisions.py', A + 'shapes.py'],
     [('choose_solver and the solvers it returns', A + 'collisions.py')],
     GVN + ', by regions of the box', 'Concentric spheres and equidistant faces (no unique normal) are excluded. ' + TRUST)
prop('C17', 'Collision dispatch is total, and all contacts of a world are found once',
     '''Choosing a solver succeeds for exactly the pairs of shape kinds with a collision geometry, in both
     orders and for subclasses of the kinds, and signals that a pair is not implemented otherwise. Collecting all the contacts of a world
     gives each pair of such shapes attached to different bodies one contact of the requested kind, built with the requested
     options, and no other pair any.''',
     ['inputs', 'programs'], 'every ordered pair of shape kinds, of subclasses and of unknown kinds; pairs on the ground, '
     'on bodies and on sub-frames of them', 'tests only build a sphere and a plane', [A + 'collisions.py', A + 'constraints.py'],
     [('choose_solver', A + 'collisions.py'), ('get_all_contacts', A + 'constraints.py')],
     GVN + ' over a world holding every pair', 'The world analysed holds 24 shapes covering every pair of kinds, on the same body and on different ones. ' + TRUST)
prop('C18', 'The kinematic tree stays consistent under every edit',
     '''After add_link, the joint, its two frames and their bodies refer to each other in both directions and nothing else changed;
     a link that would give a body a second parent, close a loop or reuse a joint is refused and changes nothing. Replacing a joint puts the
     given chain at the place of the old one (same position among the children, same subtree below), and detaches the old joint.
     Registering adds an element once, whatever it is registered through, with all it is attached to, and refuses unknown kinds.''',
     ['inputs', 'histories'], 'bodies with any number of children before and after, chains of up to three joints, every kind of element',
     'tests build trees by the normal sequence and never edit them in the middle of other children', [A + 'core.py'],
     [('World.add_link, World.replace_joint, World.register', A + 'core.py'), ('Joint.set_frames', A + 'core.py')],
     GVN + '; heap (typestate) analysis of the tree links', 'Replacement chains of more than three joints are not analysed. ' + TRUST,
     state=[('parentjoint, childrenjoints', 'links of the tree', A + 'core.py')])
prop('C19', 'Traversals and listings enumerate every element exactly once, parents first',
     '''On every tree, descendants are enumerated depth-first, each child followed by what is below it, and ancestors from the
     parent up to the root. The listings of a world are complete, in a stable order, give access by name, and can be changed without
     changing the world. Parsing a world tells its target of the ground, the vertical and the time first, then of every
     frame, shape and joint exactly once, each after what it depends on, then of the constraints and controllers.''',
     ['inputs', 'programs'], 'trees of any shape for the traversals; a forked world with every kind of element for listings and parsing',
     'the doctests list one serial chain', [A + 'core.py'],
     [('Body.iter_descendant_bodies, Body.iter_ancestor_bodies, Body.iter_descendant_joints, Body.iter_ancestor_joints', A + 'core.py'),
      ('World.parse, World.getbodies, World.iterframes', A + 'core.py')],
     GVN + '; recursive calls replaced by their contract (assume-guarantee)', TRUST)
prop('C20', 'Objects are found by name exactly, and naming gives distinct names',
     '''In a named list, finding gives all the named objects of this name in order, indexing by a name gives the first
     one or KeyError, conversion to a dictionary gives every named object or signals a duplicate name, and any other access is
     that of a list. Naming a collection keeps the names given, gives the unnamed objects names that differ from one
     another (also from those given in other collections) and signals equal names exactly when asked to; naming the elements of a
     world does so for its joints, frames, shapes, constraints and controllers.''',
     ['inputs'], 'lists of named, unnamed and foreign objects with arbitrary names; lists and generators',
     'the doctest uses one list with one repeated name', [A + 'core.py'],
     [('NamedObjectsList.find, NamedObjectsList.__getitem__, NamedObjectsList.as_dict', A + 'core.py'), ('name_all_elements', A + 'core.py')],
     GVN + ', with equalities of unknown names as gates closed by transitivity', 'Lists of three (four when naming several) objects are analysed. ' + TRUST)
prop('C23', 'Energies and centre of mass are the physical ones at every update',
     '''At every update the energy monitor appends the time, the kinetic energy half nu' M nu, the potential energy
     (sum over the massive bodies of mass . 9.81 . height of the centre of mass along the vertical of the world) and
     their sum. The centre of mass observer gives the mass-weighted mean of the centres of mass of
     its massive bodies, with its jacobian and jacobian derivative in ground axes; what its getters gave never changes
     afterwards, and each simulation starts over.''',
     ['inputs', 'histories'], 'worlds with any set of bodies (energies); massive and massless bodies in arbitrary states over successive updates and simulations',
     'no unit test computes an energy or a centre of mass for more than one posture', [A + 'observers.py'],
     [('EnergyMonitor', A + 'observers.py'), ('CoMObserver', A + 'observers.py')],
     GVN + ', sums over arbitrary bodies kept symbolic', 'The centre of mass is analysed on three massive and one massless bodies, with a general orientation either of the body or of its principal axes. ' + TRUST)
prop('C21', 'Recorders keep the value of every step, and observing disturbs nothing',
     '''After a simulation the record of a recorder has one slot per step; slot k holds the value its quantity (joint
     position, joint velocity, frame pose, frame twist, constraint force, distance, centre of mass) had
     when step k was observed, whatever happens afterwards; a new simulation starts a new record and leaves the former one
     as it was; the performance monitor times every step once. No observer changes what the simulation goes on
     from.''',
     ['histories', 'inputs'], 'a world of a floating body, a hinge, sub-frames and constraints, in arbitrary states over the steps of two simulations',
     'the tests run no recorder over several steps', [A + 'observers.py', A + 'core.py'],
     [('_Recorder.init, _Recorder.save_data', A + 'observers.py'), ('RecordJointGpos', A + 'observers.py'), ('PerfMonitor', A + 'observers.py'), ('Body.update_dynamic', A + 'core.py')],
     GVN + ', with an alias-precise heap; large expressions are named rather than expanded', 'Two steps (five in the thorough tier) and two of a second simulation are analysed. ' + TRUST)
prop('C22', 'Logged files hold exactly what was asked, one row per step',
     '''Once a simulation observed by a pickle or hdf5 logger is finished, its file is closed and holds exactly the documented
     groups that were asked for: the timeline, positions and velocities under the names of the joints, the model
     matrices, and the transforms, absolute poses under the names of the bodies when flat, otherwise poses of the joints under the names
     of their second frames, with moving sub-frames; every array has one row per step and row k is the value at step k.
     Objects without a name get a slot each, and objects whose names would make them share one are refused, whatever their kinds.''',
     ['histories', 'configurations'], 'every kind of logger with six combinations of options (sixteen in the thorough tier), named, unnamed and equally named objects, on a small world in arbitrary states, alone, together and after the world changed, with stand-ins for the files',
     'the tests read back one file with one set of options', [A + 'observers.py'],
     [('SaveLogger.init, SaveLogger.update', A + 'observers.py'), ('PickleLogger.finish', A + 'observers.py'), ('Hdf5Logger.__init__, Hdf5Logger.finish', A + 'observers.py')],
     GVN + ', with an alias-precise heap; h5py and pickle are replaced by reference stand-ins analysed with the code', 'Two steps per simulation; h5py and pickle themselves are trusted. ' + TRUST)
prop('C24', 'Objects built alike share no state, and copies given away are copies',
     '''Joints, sub-frames, planes, joint limits and PD controllers keep what they were built from: modifying the
     arrays given to a constructor, or to the pose of a moving frame, afterwards changes nothing. Arrays obtained from a world (velocity, force,
     admittance), a sub-frame or a joint can be modified without changing it. Using or modifying
     one world, body, joint, frame, list or constraint leaves the others built the same way, before or after, as they were.''',
     ['inputs', 'histories'], 'every public class built from arrays, with arbitrary values; every quantity given away as a copy',
     'tests never modify an array after having given it away, and seldom build two objects alike', [A + 'core.py', A + 'joints.py', A + 'constraints.py', A + 'controllers.py', A + 'shapes.py'],
     [('FreeJoint.__init__, FreeJoint.pose', A + 'joints.py'), ('World.gvel, SubFrame.bpose', A + 'core.py'), ('JointLimits.__init__', A + 'constraints.py'),
      ('ProportionalDerivativeController.__init__', A + 'controllers.py')],
     GVN + ', with an alias-precise heap', 'Body masses and box sizes are shared with the caller by design and are left out. ' + TRUST)
prop('C25', 'The human model scales with its lengths, mirrors its sides and has its mass',
     '''For every anatomical lengths, height and mass: exchanging the lengths of both sides gives the mirror image (masses, inertias,
     joints and their axes, landmarks); scaling every length scales the model; the bodies weigh
     the mass of the person; it stands with its feet on the ground and its vertex at its stature, which is the sum of its
     lengths. Prefixed people share a world, each being the same as alone.''',
     ['inputs'], 'every set of lengths, different on both sides; every height and mass; two people',
     'the tests compare the model of one height with stored numbers, with equal sides', [A + 'robots/human36.py'],
     [('add_human36', A + 'robots/human36.py'), ('anat_lengths_from_height, height_from_anat_lengths', A + 'robots/human36.py')],
     GVN + ' of the model built on symbolic lengths', 'The coefficients of HuMAnS themselves are not questioned. The hands are a known finding. ' + TRUST)
prop('C26', 'The iCub tables describe one symmetric tree with limits for every joint',
     '''The joints make one tree over all the bodies, rooted at the waist, each a hinge with rigid transform, ordered limits (the same in
     degrees and in radians) and a positive torque; each body has the mass and the inertia of its parts, which are also its shapes; left and right
     are mirror images, limits and contacts included, so that equal positions of both sides make a mirrored
     posture; fixing the waist, shapes and contacts are independent options that change nothing else.''',
     ['inputs', 'configurations'], 'every joint, body and contact of the tables, every option, every joint position (through the screws of the joints)',
     'no test of the repository builds the iCub', [A + 'robots/icub.py'],
     [('add', A + 'robots/icub.py'), ('get_joint_limits, get_joints_data, get_bodies_data, get_contact_data', A + 'robots/icub.py')],
     'abstract evaluation of the tables and of the world built from them, in exact arithmetic', 'The measures of the robot themselves are not questioned. ' + TRUST)
prop('C27', 'The simple robots have the inertia of their shapes between their joints',
     '''For every lengths, masses and posture: the planar arm reaches where planar kinematics says, its bodies being the documented
     boxes between the joints; the snake is a chain of cylinders from joint to joint, in the positions and velocities given, from the
     ground or a floating box; single shapes have the mass matrix of their shape and size; the ground
     plane is level with the vertical of the world.''',
     ['inputs', 'configurations'], 'arbitrary lengths, masses, positions and velocities; snakes of one to three bodies, fixed or not; with shapes or not',
     'tests build the arm with its default sizes only', [A + 'robots/simplearm.py', A + 'robots/snake.py', A + 'robots/simpleshapes.py'],
     [('add_simplearm', A + 'robots/simplearm.py'), ('add_snake', A + 'robots/snake.py'), ('add_sphere, add_box, add_cylinder, add_groundplane', A + 'robots/simpleshapes.py')],
     GVN + ' of the model built on symbolic sizes', TRUST)
prop('C28', 'A drawn world has every thing once, where its frame is',
     '''Drawing a world, flat or as a tree, gives every frame one node such that the transforms composed from the ground to it
     are the pose of the frame, and stay so when the nodes of the moving things (joints, or bodies when flat, and moving sub-frames) are given their
     poses at another time, only these nodes being declared moving. Every shape, every inertia of a body with mass, every constant offset and the axes of every
     frame are drawn once, under the node of their frame, with the dimensions of the shape and the colour of its body. A colour set for an object comes
     before one set for its name, before that of its body; a body asked again keeps its colour, and the colours of a palette are distinct.
     The graphic options are scaled, those given by the user prevail.''',
     ['inputs', 'configurations'], 'a world with every kind of frame, joint attachment and shape, in arbitrary poses and sizes; flat or not; every hue of a grid',
     'no test draws a world', [A + 'visu/world_drawer.py'],
     [('Drawer.add_link, Drawer.register', A + 'visu/world_drawer.py'), ('ColorGenerator.get_color', A + 'visu/world_drawer.py'),
      ('DrawerDriver.__init__', A + 'visu/world_drawer.py'), ('hsv_to_rgb', A + 'visu/world_drawer.py')],
     GVN + ', on the scene graph asked of a reference driver', 'The drivers of external viewers (collada, daenim) are not analysed. ' + TRUST)
prop('C29', 'Viewers are sent the place of every moving thing at every update',
     '''At every update the observers which animate a viewer (DaenimCom through a socket, pydaenimCom through a web socket) send, for
     every joint (or every body when flat) and every moving sub-frame, under the name its node has in the drawing (of the second frame of the joint, of the
     body, of the sub-frame), the twelve numbers of its transform at this moment, by rows: the pose of the joint, or the absolute pose when flat, and the pose
     of the sub-frame on its body, or the absolute one when flat; nothing is sent for anything else, unnamed things are named before, and the web message carries the
     time. A socket observer binds the first free port from the one it was given, tells it to the viewer, keeps the connection it accepted, says it closes at the end and closes its socket;
     a viewer which is absent, or closed by the user, stops nothing. Sending disturbs nothing in the simulation.''',
     ['inputs', 'histories'], 'a small world with a moving sub-frame, in arbitrary states over three updates, flat or not; ports taken or free; a viewer which is present, absent, closed',
     'no test opens a connection: the viewers are not installed, and most of it was broken under Python 3', [A + 'observers.py', A + 'visu/visu_collada.py', A + 'visu/__init__.py'],
     [('SocketCom', A + 'observers.py'), ('DaenimCom.update', A + 'visu/visu_collada.py'), ('pydaenimCom.update', A + 'visu/__init__.py')],
     GVN + ', on texts recorded by stand-ins of the connections', 'Sockets, processes and json are replaced by recording stand-ins. ' + TRUST)
prop('C30', 'A URDF robot is read, written and loaded as its document says',
     '''What is read of a URDF document is what it says: every link, joint and material with every attribute and optional element, in its order, whatever
     spaces and comments lie between; what is written is read back the same, to the last digit, zeros included; the chain between two links and the root follow the joints.
     Loaded in a world, each link is a body and each joint a joint of its kind, under their names with the prefix and the suffix given,
     and in every posture every body is where URDF places its link: H_init (or the ground), then for each joint its origin (roll, pitch, yaw about fixed axes)
     and its motion along or about its axis, whichever it is (x by default); masses are those of the inertial elements, expressed in the body; the box, sphere and
     cylinder shapes of the collision elements have their places and sizes; the limits are those of the document, and optional elements may be absent; viewers are given the same shapes, at the same places and of
     the same sizes; roll, pitch, yaw of a rotation give it back.''',
     ['inputs', 'configurations'], 'a robot with every element, arbitrary numbers and places, every kind of joint, axes of any direction, arbitrary postures; fixed or free base, names with or without prefix and suffix',
     'no test reads a URDF file, and none could be read under Python 3', [A + 'robots/urdf/'],
     [('URDF.parse_xml_string, URDF.to_xml, URDF.get_chain', A + 'robots/urdf/urdf_parser.py'), ('URDFConverter.load_in_world, to_arboris', A + 'robots/urdf/__init__.py')],
     GVN + ', against the semantics of URDF', 'The DOM of the standard library is replaced by a reference one. Continuous and planar joints are refused by the code and left out. ' + TRUST)
prop('C31', 'Collada scenes show what is drawn, where and as large as asked',
     '''Each thing asked of a collada driver is one node of the document: composing its transforms in their order brings the unit mesh
     of its shape to the size asked; a plane is perpendicular to its normal, at its distance; a line goes from its start to its end;
     an inertia is an ellipsoid in its principal frame, its radii the principal moments by the factor of the options; the arrows of all frames share one drawing, scaled once; a frame is at the pose asked, in the transform called "matrix" which the viewers move. It has the colour asked; meshes, effects and materials are in the document
     exactly once. Nodes have the names asked, distinct when asked for twice, and are below the nodes they were added to; the scene begins with the ground.''',
     ['inputs', 'histories'], 'boxes, ellipsoids, cylinders, planes, lines, inertias, arrows and frames of any size, place and colour, drawn one after another, with names repeated',
     'no test writes a collada file, and the drivers could not be imported under Python 3', [A + 'visu/dae_writer.py', A + 'visu/visu_collada.py'],
     [('pydaenimColladaDriver', A + 'visu/dae_writer.py'), ('DaenimColladaDriver', A + 'visu/visu_collada.py')],
     GVN + ', with the collada library replaced by a recording one', 'The meshes are read from simple_shapes.dae. pycollada composes the transforms of a node as the collada specification says. ' + TRUST)
prop('N01', 'The constraint sweep converges within its maximum number of iterations',
     '''For every set of constraints, the iterative solution of the constraint forces has reached its tolerance before its
     maximum number of sweeps.''',
     ['inputs', 'configurations'], 'every set of constraints, in every configuration', 'a test sees a few scenes',
     [A + 'core.py'], [('World.update_constraints', A + 'core.py')], '', '')
prop('N02', 'A simulation without dissipation keeps its energy up to the order of the step',
     '''The discretised system is passive: the energy of a simulated world without external work does not grow
     beyond the error of the integration scheme.''',
     ['inputs', 'histories'], 'every world and every timeline', 'a test follows one world over a few seconds',
     [A + 'core.py', A + 'joints.py'], [('World.integrate', A + 'core.py')], '', '')
prop('N03', 'Constrained things stay within their bounds over a simulation',
     '''Over a whole simulation, shapes in contact do not interpenetrate, joints do not pass their limits and loops stay closed, up to the
     tolerance of the solver.''',
     ['inputs', 'histories'], 'every world and every timeline', 'a test follows one scene over a few steps',
     [A + 'core.py', A + 'constraints.py'], [('World.update_constraints', A + 'core.py')], '', '')
prop('N04', 'The linear systems solved at each step are well conditioned',
     '''For every world the rounding of the solutions of the linear systems (admittance, constraint admittances) stays below a stated bound.''',
     ['inputs', 'configurations'], 'every world', 'a test sees a few well conditioned worlds',
     [A + 'core.py', A + 'constraints.py'], [('World.update_controllers', A + 'core.py')], '', '')
prop('N05', 'Drawings shown by the external viewers are those asked',
     '''The external viewers show the collada files and the motions they are given.''',
     ['inputs', 'programs'], 'every scene', 'no test opens a viewer',
     [A + 'visu/dae_writer.py', A + 'visu/visu_collada.py'], [('write_collada_scene', A + 'visu/dae_writer.py'), ('DaenimCom', A + 'visu/visu_collada.py')], '', '')
prop('N06', 'Performance measures are the durations of the steps',
     '''The durations reported by the performance monitor are those the steps took, and socket observers never delay a simulation
     more than their time-out.''',
     ['schedules'], 'every machine load', 'a test sees one machine', [A + 'observers.py'], [('PerfMonitor', A + 'observers.py')], '', '')
NA = {
    'N04': 'floating point error of LAPACK on matrices known at run time only; the domain here is the reals. C04, C08 and C10 decide which systems are solved.',
    'N05': 'pycollada and the viewers are neither installed nor part of the repository, so there is no program to analyse. C28 decides what is asked of a driver, C31 the nodes the drivers make, C29 what is sent to the viewers, C22 the logged files.',
    'N06': 'durations are runtime quantities. C21 decides that each step records one measure taken around it.',
    'N01': 'the number of sweeps depends on the spectrum of the admittance met at run time (with friction, convergence is not even a theorem): no static bound in reach. C12 decides that the sweep is the documented one and stops on the documented test.',
    'N02': 'needs bounds on a nonlinear recurrence over an unknown number of steps. C13 decides each step, C08 the mechanical model, C23 the energies reported.',
    'N03': 'the laws enforce the bounds to first order over a step only; the position error accumulated over a run is a runtime quantity. C14 and C15 decide the laws of one step.',
}
