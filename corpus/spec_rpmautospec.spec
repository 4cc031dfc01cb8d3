Name:           test
Version:        0.1
Release:        %autorelease
Summary:        Test package

License:        MIT


%description
Test package


%changelog
%autochangelog
